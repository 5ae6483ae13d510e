#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a table so that it stays readable)."""
import json, os
R = []
def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    R.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=['optax/_src/'+f if '/' not in f else f for f in files],
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        mechanism=[dict(name=n, where=w) for n, w in mech],
        observe_at=list(observe), hook_needed=None)))

P('C01', 'chain applies its transformations in order, each with its own state',
  'A chain of gradient transformations behaves as the left-to-right composition of its members: member i receives the updates produced by member i-1, the original params, and only its own state, and the chained state holds exactly one state per member in order. This holds for any number of members and for nested chains, and a state with the wrong number of members is rejected rather than silently mis-applied.',
  ['programs', 'inputs', 'histories'], 'every list of member transformations, every input tree, every step',
  'Tests chain two or three concrete members on one tree; member identity, order and state routing must hold for arbitrary members.',
  ['combine.py', 'base.py'], [('chain', 'optax/_src/combine.py:chain'), ('identity', 'optax/_src/base.py:identity')],
  [('chain state', 'tuple with one entry per member', 'optax/_src/combine.py')], ['optax.chain', 'optax.identity'])

P('C02', 'updates and state keep structure, shape and dtype across every step',
  'For every built-in gradient transformation, wrapper and optimizer alias, the updates returned have the same tree structure, leaf shapes and leaf dtypes as the gradients passed in, and the new state has the same structure, shapes and dtypes as the state passed in. (Exceptions, as documented: with accumulator_dtype the updates of trace and ema have that dtype, lookahead takes the fast gradients and returns updates shaped like its params, and differentially private aggregation removes the batch axis.) The state type produced by init is already this fixed point, so an update step can be carried through compiled loops for trees of any shape and any single or mixed floating precision.',
  ['inputs', 'configurations', 'histories'], 'every transformation, every tree, every leaf dtype (float16/bfloat16/float32 and mixtures), every step',
  'Tests use float32 trees almost everywhere; dtype drift shows only for low precision or mixed trees and only under jit/scan carry checks.',
  ['transform.py', 'wrappers.py', 'clipping.py', 'constrain.py', 'privacy.py', 'lookahead.py', 'alias.py', 'schedule.py', 'utils.py'],
  [('per-leaf tree maps', 'optax/_src/transform.py'), ('cast_tree/canonicalize_dtype', 'optax/_src/utils.py'), ('lax.cond branches', 'optax/_src/wrappers.py')],
  [], ['GradientTransformation.init', 'GradientTransformation.update'])

P('C03', 'library functions are pure and deterministic',
  'Every public function is a deterministic function of its arguments: it does not mutate its arguments (gradients, params, states, or user-supplied lists, dicts and masks), keeps no hidden state between calls, and reads no global randomness, clock, file or environment. Calling the same init or update again with the same arguments therefore gives the same result.',
  ['programs', 'inputs', 'histories'], 'every public entry point, every call history',
  'A test observes a few calls; hidden mutation or global randomness is visible only for particular call sequences.',
  ['transform.py', 'wrappers.py', 'linear_algebra.py', 'schedule.py', 'control_variates.py', 'stochastic_gradient_estimators.py', 'lookahead.py', 'update.py'],
  [('pure closures over hyperparameters', 'optax/_src/*.py')], [], ['all of optax.__init__'])

P('C04', 'everything is traceable: no Python decision depends on array values',
  'Init/update functions, schedules, losses and parameter-update helpers can be called with abstract (traced) arrays for gradients, states, params, step counts and labels, and give the same result as outside compilation. No Python-level branch, loop bound, conversion or host NumPy call depends on the value of such an array; only hyperparameters documented as static may be inspected.',
  ['programs', 'inputs'], 'every entry point, every traced argument',
  'Tests jit a subset of entry points with particular arguments; a value-dependent branch on a rarely used configuration escapes.',
  ['transform.py', 'wrappers.py', 'schedule.py', 'loss.py', 'update.py', 'clipping.py', 'lookahead.py', 'linear_algebra.py', 'constrain.py'],
  [('jnp.where / lax.cond / lax.select instead of Python if', 'optax/_src/*.py')], [], ['jax.jit(update)', 'jax.jit(schedule)'])

P('C05', 'params are required where needed, optional elsewhere, and always forwarded',
  'A transformation whose result depends on the parameters raises an error when params are omitted, and every other transformation accepts update(updates, state) without them. Every combinator and wrapper passes the params it receives (restricted or flattened as documented) to the transformations it contains, so any composition of wrappers around a params-dependent optimizer works and sees the true parameters.',
  ['programs', 'configurations'], 'every transformation and every nesting of wrappers',
  'Tests wrap mostly sgd/adam, which ignore params; dropped or wrong params are invisible to them.',
  ['base.py', 'combine.py', 'wrappers.py', 'lookahead.py', 'transform.py', 'clipping.py', 'constrain.py', 'schedule.py'],
  [('NO_PARAMS_MSG checks', 'optax/_src/base.py'), ('inner.update(updates, state, params)', 'optax/_src/wrappers.py')], [], ['update(updates, state)', 'update(updates, state, params)'])

P('C06', 'momentum and moment accumulators follow their recurrences at every step',
  'trace (heavy-ball and Nesterov), ema, scale_by_rss, scale_by_rms and scale_by_stddev compute, at every step of every history, exactly the documented recurrence of the current gradient and their stored accumulator, starting from the documented initial value. ema with debias divides by one minus decay to the number of steps taken, without debias it returns the moving average itself, and stored accumulators are never replaced by their bias-corrected or scaled versions.',
  ['histories', 'inputs', 'configurations'], 'every gradient sequence, every hyperparameter value, every step',
  'Tests run a fixed handful of steps with default hyperparameters on one tree.',
  ['transform.py'], [('trace, ema, scale_by_rss, scale_by_rms, scale_by_stddev, moment helpers', 'optax/_src/transform.py')],
  [('TraceState.trace', 'momentum buffer', 'optax/_src/transform.py'), ('EmaState', 'count, ema', 'optax/_src/transform.py'), ('ScaleByRmsState.nu', 'second moment', 'optax/_src/transform.py')],
  ['optax.trace', 'optax.ema', 'optax.scale_by_rms', 'optax.scale_by_stddev', 'optax.scale_by_rss'])

P('C07', 'Adam, AdaBelief, Yogi and RAdam compute their published update at every step',
  'scale_by_adam, scale_by_belief, scale_by_yogi and scale_by_radam return, for every gradient history and every setting of their hyperparameters, the update defined by their published recurrences: first and second moment estimates from their documented initial values, bias correction by the number of steps taken including the current one, and eps (and eps_root) placed as documented. (The second moment of AdaBelief averages the squared deviation of the gradient from the moving average kept before the current step, as implemented and tested here.) RAdam uses the variance-rectified step exactly when its rectification term reaches the threshold and otherwise the bias-corrected momentum alone.',
  ['histories', 'inputs', 'configurations'], 'every gradient sequence, hyperparameter setting and step count',
  'Tests check convergence or a few steps with default b1/b2/eps; misplacing eps, off-by-one bias corrections at large counts, or non-default settings pass.',
  ['transform.py'], [('scale_by_adam / scale_by_belief / scale_by_yogi / scale_by_radam', 'optax/_src/transform.py')],
  [('ScaleByAdamState', 'count, mu, nu', 'optax/_src/transform.py')], ['optax.scale_by_adam', 'optax.scale_by_belief', 'optax.scale_by_yogi', 'optax.scale_by_radam'])

P('C08', 'SM3 keeps one accumulator per axis and scales by their minimum',
  'scale_by_sm3 keeps, for each tensor axis, a vector of accumulators; each step estimates an entry\'s second moment from the minimum of its axes\' accumulators combined with the squared gradient (summed, or exponentially averaged when b2 is not 1), stores the per-axis maxima of the new estimate, scales the gradient by the inverse square root (zero where the estimate is zero) and applies momentum with decay b1. This holds for tensors of any rank, including scalars, and at every step.',
  ['histories', 'inputs', 'configurations'], 'every gradient history, every tensor rank',
  'One convergence test on one vector shape.',
  ['transform.py'], [('scale_by_sm3', 'optax/_src/transform.py')], [('ScaleBySM3State', 'mu (per-axis accumulators), nu (momentum)', 'optax/_src/transform.py')], ['optax.scale_by_sm3', 'optax.sm3'])

P('C09', 'step counters start at zero, advance by one and saturate',
  'Every int32 step counter kept in an optimizer state (bias-corrected moments, schedules, injected hyperparameters, moving averages, periodic accumulation, conditional updates, non-finite tracking, multi-step accumulation) is zero after init and advances by exactly one per counted event. At the largest int32 value it stays there instead of wrapping to a negative number.',
  ['histories'], 'every history, in particular the ones reaching the end of the int32 range',
  'No test takes 2^31 steps; only the increment helper itself is tested.',
  ['numerics.py', 'transform.py', 'wrappers.py', 'schedule.py', 'lookahead.py'], [('safe_int32_increment', 'optax/_src/numerics.py')],
  [('count/step fields', 'number of steps taken', 'optax/_src/transform.py, wrappers.py, schedule.py')], ['state.count', 'state.step'])

P('C10', 'elementary schedules equal their closed forms at every step',
  'constant, polynomial, linear, exponential-decay, cosine-decay and piecewise-constant schedules equal their documented closed form at every non-negative step count and every hyperparameter setting: values before the transition begins are the initial value, values after it ends are held at the end value (or bounded by it), staircase decay changes only at multiples of the transition length, and a boundary\'s factor applies from its step on. Degenerate settings (non-positive transition length, zero decay rate, invalid step counts) give the documented constant schedule or error.',
  ['inputs', 'configurations'], 'every step count and every hyperparameter value',
  'Tests tabulate a few schedules over tens of steps.',
  ['schedule.py'], [('constant_schedule … cosine_decay_schedule', 'optax/_src/schedule.py')], [], ['optax.polynomial_schedule', 'optax.exponential_decay', 'optax.cosine_decay_schedule', 'optax.piecewise_constant_schedule'])

P('C11', 'joined, warmup and restart schedules switch at the right step and offset',
  'A joined schedule follows schedule i between its boundaries and evaluates it at the number of steps since that boundary, for any number of schedules and boundaries. Warmup-cosine, warmup-exponential and SGDR schedules are the documented joins: linear warmup from the initial to the peak value over the warmup steps, then the documented decay over the remaining steps, cycle after cycle.',
  ['inputs', 'configurations'], 'every count, number of boundaries and hyperparameters',
  'Tests examine one or two joins; off-by-one at boundaries or wrong decay horizon for other settings pass.',
  ['schedule.py'], [('join_schedules, warmup_cosine_decay_schedule, warmup_exponential_decay_schedule, sgdr_schedule', 'optax/_src/schedule.py')], [], ['optax.join_schedules', 'optax.warmup_cosine_decay_schedule', 'optax.warmup_exponential_decay_schedule', 'optax.sgdr_schedule'])

P('C12', 'interpolated and one-cycle schedules pass their knots and hold at the end',
  'piecewise_interpolate_schedule passes through the value prescribed at each boundary, interpolates linearly or by half-cosine in between (the scales of coinciding boundaries multiply), holds the last value afterwards, and is finite at every non-negative step, whatever boundaries are given. The one-cycle schedules go from peak/div_factor up to the peak, back down, and to the final value peak/(div_factor*final_div_factor) at the documented fractions of the transition steps, for every positive transition length.',
  ['inputs', 'configurations'], 'every count, boundary list, interpolation type and length (including very short ones)',
  'Tests use one long schedule; short schedules with coinciding knots are never evaluated.',
  ['schedule.py'], [('piecewise_interpolate_schedule, linear_onecycle_schedule, cosine_onecycle_schedule', 'optax/_src/schedule.py')], [], ['optax.piecewise_interpolate_schedule', 'optax.linear_onecycle_schedule', 'optax.cosine_onecycle_schedule'])

P('C13', 'inject_hyperparams evaluates schedules per step and exposes the values in use',
  'An optimizer factory wrapped by inject_hyperparams behaves, at every step, exactly as the factory called with numeric hyperparameters equal to those stored in the returned state, where a schedule argument takes its value at the step count of that update and numeric arguments keep whatever value is currently in the state. Arguments may be given positionally, by keyword or by default, non-numeric and static arguments reach the factory unchanged, and different arguments are never mixed up.',
  ['programs', 'histories', 'configurations'], 'every factory signature, argument passing style, step',
  'Tests wrap a few built-in factories with keyword arguments.',
  ['schedule.py'], [('inject_hyperparams', 'optax/_src/schedule.py')], [('InjectHyperparamsState', 'count, hyperparams, inner_state', 'optax/_src/schedule.py')], ['optax.inject_hyperparams'])

P('C14', 'clipping bounds the update and leaves conforming updates untouched',
  'clip bounds every entry to [-delta, delta]; clip_by_global_norm scales the whole tree by one common factor so that its global norm is at most the limit and returns it unchanged when it is already below; adaptive clipping limits each unit-wise gradient norm to the given multiple of the unit-wise parameter norm (floored by eps) for parameters of rank 0 to 4. Entries within the limit are returned unchanged, direction is preserved, and no zero gradient produces a NaN.',
  ['inputs', 'configurations'], 'every gradient tree and limit',
  'Tests sample one tree above/below the limit.',
  ['clipping.py', 'linear_algebra.py'], [('clip, clip_by_global_norm, adaptive_grad_clip, unitwise_norm, unitwise_clip', 'optax/_src/clipping.py')], [], ['optax.clip', 'optax.clip_by_global_norm', 'optax.adaptive_grad_clip'])

P('C15', 'private aggregation clips each example before summing and noises once',
  'differentially_private_aggregate scales each example\'s gradient, across the whole tree, by a single factor so that its global norm is at most the clipping norm, sums over the batch, adds Gaussian noise whose standard deviation is the clipping norm times the noise multiplier, independently per coordinate, and divides by the batch size. Thus no single example can change the pre-noise sum by more than the clipping norm; gradients without a batch axis are rejected, and the state key advances every step.',
  ['inputs', 'configurations', 'histories'], 'every batch of per-example gradients, every noise key',
  'Tests check one batch without noise and one noise statistic.',
  ['privacy.py', 'alias.py'], [('differentially_private_aggregate', 'optax/_src/privacy.py')], [('rng_key', 'noise key', 'optax/_src/privacy.py')], ['optax.differentially_private_aggregate', 'optax.dpsgd'])

P('C16', 'random keys are never reused',
  'In every gradient transformation that draws randomness (add_noise, differentially private aggregation and the aliases built on them), each key is consumed at most once: different leaves get noise from different keys, a key that has been sampled from or split is not used again, and the key stored for the next step differs from all keys consumed in this step and derives only from the seed and the number of steps. Noise added to gradients has the documented standard deviation (eta/(1+t)^gamma is the variance) and leaf shape.',
  ['histories', 'inputs'], 'every step and tree with any number of leaves',
  'Tests check the empirical variance of one leaf; correlated noise across leaves or steps is not visible to them.',
  ['transform.py', 'privacy.py', 'alias.py', 'stochastic_gradient_estimators.py', 'control_variates.py'], [('add_noise', 'optax/_src/transform.py'), ('jax.random.split', 'optax/_src/transform.py, privacy.py')],
  [('AddNoiseState', 'count, rng_key', 'optax/_src/transform.py')], ['optax.add_noise', 'optax.noisy_sgd', 'optax.dpsgd'])

P('C17', 'apply_if_finite skips non-finite updates without touching the inner state',
  'When any entry of the incoming gradients is NaN or infinite, apply_if_finite returns all-zero updates and leaves the wrapped optimizer\'s state unchanged, unless more than max_consecutive_errors consecutive non-finite updates have been seen, in which case it applies the update. When all are finite the wrapped update and state are returned exactly; the consecutive-error count, the last-finite flag and the total count reflect precisely what has been seen.',
  ['histories', 'fault_sequences', 'inputs'], 'every sequence of finite and non-finite gradients, every wrapped optimizer',
  'Tests drive one error sequence with one optimizer.',
  ['wrappers.py'], [('apply_if_finite', 'optax/_src/wrappers.py')], [('ApplyIfFiniteState', 'notfinite_count, last_finite, total_notfinite, inner_state', 'optax/_src/wrappers.py')], ['optax.apply_if_finite'])

P('C18', 'MultiSteps applies the mean of k gradients once per k steps and is inert between',
  'MultiSteps emits all-zero updates and leaves the wrapped optimizer untouched except on every k-th mini step, where the wrapped optimizer receives the mean (or the sum, when averaging is disabled) of exactly the k gradients since the previous emission together with the params, and the accumulator and mini-step counter restart from zero. The period may be a schedule of the number of emitted steps, and has_updated reports emission exactly after those steps.',
  ['histories', 'schedules', 'configurations'], 'every gradient sequence, period or period schedule, and wrapped optimizer',
  'Tests use fixed small periods and SGD/Adam with constant gradients.',
  ['wrappers.py'], [('MultiSteps', 'optax/_src/wrappers.py')], [('MultiStepsState', 'mini_step, gradient_step, inner_opt_state, acc_grads', 'optax/_src/wrappers.py')], ['optax.MultiSteps'])

P('C19', 'masked transforms only masked leaves and passes the others through',
  'masked applies the wrapped transformation exactly as if the tree contained only the leaves whose mask is True (gradients, params and state alike), and returns the other leaves unchanged, in the same tree. The mask may be a tree, a prefix tree or a function of the tree, any mixture of True and False, any tree structure including a single bare array.',
  ['inputs', 'programs', 'configurations'], 'every tree, mask and wrapped transformation',
  'Tests use a few dict/list trees with scale or weight decay.',
  ['wrappers.py'], [('masked', 'optax/_src/wrappers.py')], [('MaskedState.inner_state', 'state of the wrapped transformation', 'optax/_src/wrappers.py')], ['optax.masked'])

P('C20', 'apply_every and maybe_update fire exactly when they should',
  'apply_every(k) emits the sum of the last k updates on every k-th step and exact zeros otherwise, restarting its sum after each emission. maybe_update applies the wrapped transformation exactly on the steps for which the predicate of the step count (starting from zero) is true, and otherwise passes the gradients through unchanged leaving the wrapped state as it was.',
  ['histories', 'fault_sequences', 'configurations'], 'every gradient sequence (also with non-finite entries), k, predicate and wrapped transformation',
  'Tests run a handful of steps with finite gradients.',
  ['transform.py', 'wrappers.py'], [('apply_every', 'optax/_src/transform.py'), ('maybe_update', 'optax/_src/wrappers.py')], [('ApplyEvery', 'count, grad_acc', 'optax/_src/transform.py'), ('MaybeUpdateState', 'inner_state, step', 'optax/_src/wrappers.py')], ['optax.apply_every', 'optax.maybe_update'])

P('C21', 'flatten runs the wrapped optimizer on one vector and restores every leaf',
  'flatten concatenates all leaves of gradients and params, in tree order, into a single one-dimensional vector for the wrapped transformation, and returns each slice of the resulting update at the leaf it came from with that leaf\'s shape and dtype. For an elementwise transformation the result is identical to not flattening.',
  ['inputs', 'programs'], 'every tree of leaves and wrapped transformation',
  'Tests compare two optimizers on one tree of equal dtypes.',
  ['wrappers.py'], [('flatten', 'optax/_src/wrappers.py')], [], ['optax.flatten'])

P('C22', 'lookahead synchronises slow and fast weights every sync_period steps',
  'lookahead passes the fast gradients, its own inner state and the fast params to the fast optimizer at every step; on every sync_period-th step it moves the slow params by slow_step_size times their distance to the new fast params and sets the fast params to the new slow params, while at other steps slow params do not move. With state reset enabled the fast optimizer\'s state returns exactly to its initial value at each synchronisation, whatever it contained, and is otherwise untouched.',
  ['histories', 'configurations', 'fault_sequences'], 'every gradient history, period, step size and fast optimizer',
  'Tests run one toy problem with finite values and a float-only state.',
  ['lookahead.py'], [('lookahead', 'optax/_src/lookahead.py')], [('LookaheadState', 'fast_state, steps_since_sync', 'optax/_src/lookahead.py')], ['optax.lookahead', 'optax.LookaheadParams'])

P('C23', 'parameter update helpers compute what they document, leaf by leaf',
  'apply_updates adds updates to params leafwise and keeps each param\'s dtype; incremental_update returns the convex combination step_size*new+(1-step_size)*old; periodic_update returns exactly the new tensors when the step count is a multiple of the period and exactly the old ones otherwise. All preserve the tree structure.',
  ['inputs', 'configurations'], 'every pair of trees, step size, count and period',
  'Tests use one tree each.',
  ['update.py'], [('apply_updates, incremental_update, periodic_update', 'optax/_src/update.py')], [], ['optax.apply_updates', 'optax.incremental_update', 'optax.periodic_update'])

P('C24', 'each optimizer alias is the documented pipeline with every argument in its slot',
  'Each alias (adabelief, adagrad, adam, adamw, dpsgd, fromage, lamb, noisy_sgd, radam, rmsprop, sgd, sm3, yogi) equals the documented chain of transformations: every argument reaches the transformation it is documented for with its value unchanged, defaults are as documented in the signature, weight decay is placed before the learning rate, momentum appears only when requested, and the result is scaled by minus the learning rate. A learning-rate schedule is evaluated at 0, 1, 2, ... at successive steps, and equals passing its value as a constant at that step.',
  ['configurations', 'histories', 'inputs'], 'every argument combination, gradient history and schedule',
  'Tests check that aliases descend on toy losses or match another library at default arguments; swapped or dropped non-default arguments pass.',
  ['alias.py', 'combine.py', 'transform.py'], [('alias functions, _scale_by_learning_rate', 'optax/_src/alias.py')], [], ['optax.adam', 'optax.adamw', 'optax.lamb', 'optax.sgd', 'optax.rmsprop', '…'])

P('C25', 'losses equal their definitions elementwise and are stable for any logits',
  'l2_loss, huber_loss, sigmoid_binary_cross_entropy, softmax_cross_entropy, smooth_labels, cosine_similarity and cosine_distance equal their documented formula for every prediction, target and hyperparameter, reduce over the last axis only where documented and never over the batch. Cross entropies are computed through log-sum-exp or log-sigmoid so they and their gradients are finite for arbitrarily large finite logits, and integer inputs, or inputs whose last axes do not agree, are rejected as documented.',
  ['inputs', 'configurations'], 'every prediction, target, delta, alpha, epsilon',
  'Tests compare a few arrays with precomputed values.',
  ['loss.py', 'numerics.py'], [('loss functions', 'optax/_src/loss.py')], [], ['optax.l2_loss', 'optax.huber_loss', 'optax.softmax_cross_entropy', '…'])

P('C26', 'second-order helpers return exact curvature products',
  'For any differentiable loss of parameters, inputs and targets, hvp returns the Hessian-vector product at the given parameters, hessian_diag the exact diagonal of that Hessian in flattened parameter order, and fisher_diag the elementwise square of the gradient of the loss in the same order. They hold for any parameter tree.',
  ['programs', 'inputs'], 'every loss function, parameter tree and vector',
  'One small network is compared.',
  ['second_order.py'], [('hvp, hessian_diag, fisher_diag', 'optax/_src/second_order.py')], [], ['optax.hvp', 'optax.hessian_diag', 'optax.fisher_diag'])

P('C27', 'gradient estimators return per-sample Jacobians of the documented estimator',
  'The score-function, pathwise and measure-valued estimators return, for every distribution parameter leaf, one Jacobian row per sample equal to the documented estimator: function value times score, derivative of the function at the reparameterised sample, or the weighted difference of coupled samples. Samples are drawn once from the given key, gradients do not flow through the samples of the score-function estimator, and averaging rows gives the estimate. A distribution builder a coupled measure-valued estimator does not support is rejected.',
  ['programs', 'inputs'], 'every function, distribution parameters and key',
  'Tests check means statistically on simple functions.',
  ['stochastic_gradient_estimators.py', 'utils.py'], [('score_function_jacobians, pathwise_jacobians, measure_valued_jacobians', 'optax/_src/stochastic_gradient_estimators.py')], [], ['optax.score_function_jacobians', 'optax.pathwise_jacobians', 'optax.measure_valued_jacobians'])

P('C28', 'control variates leave the expectation unchanged',
  'Jacobians with a control variate equal the plain estimator applied to function minus coefficient times control variate, plus coefficient times the gradient of the control variate\'s analytic expectation, for every estimator, control variate and coefficient. The delta-method variate is the second-order expansion around the distribution mean with its exact expectation; the moving-average baseline is the (optionally debiased) average of past function values with state updated once per call, so that the debiased average of a constant is that constant; coefficient estimation returns the documented regression coefficients, computed with the same (updated) control variate state as the Jacobians.',
  ['programs', 'inputs', 'histories'], 'every function, parameters, coefficient, sequence of calls',
  'Tests check statistics with two functions and the first update of the moving average.',
  ['control_variates.py'], [('control_delta_method, moving_avg_baseline, control_variates_jacobians, estimate_control_variate_coefficients', 'optax/_src/control_variates.py')], [], ['optax.control_delta_method', 'optax.moving_avg_baseline', 'optax.control_variates_jacobians'])

P('C29', 'linear algebra helpers compute what they document within their iteration bound',
  'global_norm is the square root of the sum of squares over all leaves. power_iteration and matrix_inverse_pth_root perform at most num_iters iterations, stop early only on their tolerance, depend on nothing but their arguments, follow the documented iteration, and the p-th root iteration is correct in exact arithmetic for every supported integer p, returning a matrix of the input\'s shape.',
  ['inputs', 'configurations'], 'every matrix, p, num_iters and tolerance',
  'Tests use p in {1,2,4,8}-like values and random matrices.',
  ['linear_algebra.py'], [('global_norm, power_iteration, matrix_inverse_pth_root', 'optax/_src/linear_algebra.py')], [], ['optax.global_norm', 'optax.power_iteration', 'optax.matrix_inverse_pth_root'])

P('C30', 'public namespace, export list and API documentation agree',
  'Every public symbol importable from the top-level package is in its export list, every name in the export list exists and refers to the object of that name, and every exported name has an entry in the API reference (docs/api.rst), which documents nothing else. Every import, free name and internal module attribute in the package resolves.',
  ['programs', 'configurations'], 'every exported name',
  'One test touches the package import; nothing checks completeness of the export list.',
  ['optax/__init__.py', 'docs/api.rst'], [('__all__', 'optax/__init__.py'), ('API reference', 'docs/api.rst')], [], ['optax.__all__'])

P('C31', 'gradients of safe_norm are finite everywhere, and norms respect their floor',
  'safe_norm(x, min_norm) is the larger of min_norm and the Euclidean norm of x, and its gradient is finite for every finite x including the zero vector and vectors below the floor, when differentiated once. Functions that divide by a norm (trust-ratio scaling, cosine similarity, adaptive clipping) yield no NaN or infinity for zero vectors.',
  ['inputs', 'configurations'], 'every vector and floor',
  'Tests check the gradient at one zero vector.',
  ['numerics.py', 'loss.py', 'transform.py', 'clipping.py'], [('safe_norm', 'optax/_src/numerics.py')], [], ['optax.safe_norm', 'jax.grad(optax.safe_norm)'])

P('C32', 'simple rescaling transformations apply exactly their documented factor',
  'scale multiplies every leaf by its factor; scale_by_schedule multiplies by the schedule at the number of previous updates; add_decayed_weights adds weight_decay times the parameter; scale_by_trust_ratio multiplies each leaf by the ratio of parameter norm to update norm, floored by min_norm, and by one when either norm is zero; centralize subtracts the mean over all but the first axis for leaves of rank above one and leaves others alone.',
  ['inputs', 'configurations', 'histories'], 'every tree, hyperparameter and step',
  'Tests use one tree each.',
  ['transform.py'], [('scale, scale_by_schedule, add_decayed_weights, scale_by_trust_ratio, centralize', 'optax/_src/transform.py')], [], ['optax.scale', 'optax.scale_by_schedule', 'optax.add_decayed_weights', 'optax.scale_by_trust_ratio', 'optax.centralize'])

P('C33', 'constraints hold after every step: params stay non-negative, NaNs become zero',
  'With keep_params_nonnegative last in the pipeline, params that are non-negative before a step are non-negative after applying the updates, updates that would not make a param negative are unchanged, and a param that would become negative lands exactly on zero. zero_nans replaces exactly the NaN entries by zero, leaves every other entry (including infinities) unchanged, and reports per leaf whether a NaN was found in the latest updates.',
  ['inputs', 'histories', 'fault_sequences'], 'every gradient/param value including NaN and infinities',
  'Tests use one tree; the zero_nans test does not run on this platform at all.',
  ['constrain.py'], [('keep_params_nonnegative, zero_nans', 'optax/_src/constrain.py')], [('ZeroNansState.found_nan', 'per-leaf flag', 'optax/_src/constrain.py')], ['optax.keep_params_nonnegative', 'optax.zero_nans'])

P('C34', 'the diagonal-Gaussian and array helpers match their definitions',
  'The diagonal normal distribution parameterised by log-scales reports its log-scales and parameters as given, draws samples as mean plus exp(log_scale) times standard normal noise of the requested sample shape, and its log density is the Gaussian log density summed over dimensions. Tiling, dtype canonicalisation, tree casting and batched diagonal setting helpers change only what they document.',
  ['inputs', 'configurations'], 'every mean, scale, sample shape, matrix',
  'Tests touch set_diags and a few casts.',
  ['utils.py'], [('MultiNormalDiagFromLogScale, tile_second_to_last_dim, canonicalize_dtype, cast_tree, set_diags', 'optax/_src/utils.py')], [], ['optax.multi_normal'])

P('C35', 'public calling conventions, defaults and state fields are the documented ones',
  'Every public callable accepts its documented parameters by position (in the documented order) and by name, and a parameter left out takes its documented default value; every public state class keeps its documented fields in the documented order, and the states returned by init and update have those fields. New optional parameters or fields may only be appended.',
  ['configurations', 'programs'], 'every public callable, every way of passing its arguments, every state class',
  'Tests pass most arguments explicitly and rarely look at a default or at a state field.',
  ['alias.py', 'transform.py', 'wrappers.py', 'schedule.py', 'base.py'], [('public factories and functions', 'optax/_src/*.py')], [('state NamedTuples', 'fields', 'optax/_src/*.py')], ['optax.*'])

P('C40', 'optimizers converge on well-conditioned problems',
  'With suitable hyperparameters every optimizer alias drives a smooth convex loss to its minimum.',
  ['inputs', 'histories'], 'every smooth convex problem', 'Tests run two toy problems.',
  ['alias.py'], [('alias functions', 'optax/_src/alias.py')])
P('C41', 'stochastic gradient estimators are unbiased and control variates reduce variance',
  'The expectation of each estimator equals the gradient of the expectation, and control variates with estimated coefficients do not increase variance.',
  ['inputs', 'programs'], 'every function and distribution', 'Tests average samples for two functions.',
  ['stochastic_gradient_estimators.py', 'control_variates.py'], [('estimators', 'optax/_src/stochastic_gradient_estimators.py')])
P('C42', 'DP-SGD provides the (epsilon, delta) guarantee of the Gaussian mechanism',
  'Training with dpsgd satisfies the differential-privacy guarantee implied by its noise multiplier, clipping norm and sampling.',
  ['histories', 'inputs'], 'every pair of neighbouring datasets', 'Tests check clipping and a noise statistic.',
  ['privacy.py'], [('differentially_private_aggregate', 'optax/_src/privacy.py')])
P('C43', 'iterative linear algebra converges to floating-point accuracy',
  'power_iteration converges to the dominant eigenpair and matrix_inverse_pth_root to the inverse root within the stated tolerance in float32.',
  ['inputs'], 'every positive definite matrix', 'Tests sample random matrices.',
  ['linear_algebra.py'], [('power_iteration, matrix_inverse_pth_root', 'optax/_src/linear_algebra.py')])
P('C44', 'results are accurate in floating point and reproducible across backends',
  'Rounding error of every update stays within a few units in the last place and results agree between CPU, GPU and TPU and between jitted and non-jitted execution.',
  ['inputs', 'configurations'], 'every input, backend and compilation mode', 'Tests run on CPU with loose tolerances.',
  ['transform.py'], [('array arithmetic', 'optax/_src/transform.py')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for r in R:
        assert len(r['title']) <= 80, r['id']
        f.write(json.dumps(r, ensure_ascii=False) + '\n')
print(len(R))
