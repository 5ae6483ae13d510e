"""The signature of every public callable, the fields of every public state class and the fields of the
states that init and update actually return are read off the interpreted modules and compared with the
documented calling convention: same names, same order, same defaults; only optional additions at the end."""
import numpy as np

from .. import interp as IT, terms as T, values as V
from ..spec import L, TREE
from ..values import ANT, Arr

RULE = """parameter order, names, kinds and defaults = the documented calling convention (optional additions at the end allowed); documented state fields in documented order, present on every returned state"""
TECHNIQUE = 'comparison of the interpreted definitions (signatures, default values, class fields, type of returned states) with the documented calling convention'
NOTE = """Exact for names, order and default values. A callable that takes *args/**kwargs instead of the documented names is not decided here (the other properties call it by position and by name)."""
FLOOR = 330

FUNCTIONS = dict(
    MultiSteps='opt, every_k_schedule, use_grad_mean=True',
    adabelief='learning_rate, b1=0.9, b2=0.999, eps=1e-08',
    adagrad='learning_rate, initial_accumulator_value=0.1, eps=1e-07',
    adam='learning_rate, b1=0.9, b2=0.999, eps=1e-08, eps_root=0.0',
    adamw='learning_rate, b1=0.9, b2=0.999, eps=1e-08, eps_root=0.0, weight_decay=0.0001',
    adaptive_grad_clip='clipping, eps=0.001',
    add_decayed_weights='weight_decay=0.0',
    add_noise='eta, gamma, seed',
    additive_weight_decay='weight_decay=0.0',
    apply_every='k=1',
    apply_if_finite='inner, max_consecutive_errors',
    apply_updates='params, updates',
    centralize='',
    chain='*args',
    clip='max_delta',
    clip_by_global_norm='max_norm',
    constant_schedule='value',
    control_delta_method='function',
    control_variates_jacobians='function, control_variate_from_function, grad_estimator, params, dist_builder, rng, num_samples, control_variate_state=None, estimate_cv_coeffs=False, estimate_cv_coeffs_num_samples=20',
    cosine_decay_schedule='init_value, decay_steps, alpha=0.0',
    cosine_distance='predictions, targets, epsilon=0.0',
    cosine_onecycle_schedule='transition_steps, peak_value, pct_start=0.3, div_factor=25.0, final_div_factor=10000.0',
    cosine_similarity='predictions, targets, epsilon=0.0',
    differentially_private_aggregate='l2_norm_clip, noise_multiplier, seed',
    dpsgd='learning_rate, l2_norm_clip, noise_multiplier, seed, momentum=None, nesterov=False',
    ema='decay, debias=True, accumulator_dtype=None',
    exponential_decay='init_value, transition_steps, decay_rate, transition_begin=0, staircase=False, end_value=None',
    fisher_diag='negative_log_likelihood, params, inputs, targets',
    flatten='inner',
    fromage='learning_rate, min_norm=1e-06',
    global_norm='updates',
    hessian_diag='loss, params, inputs, targets',
    huber_loss='predictions, targets=None, delta=1.0',
    hvp='loss, v, params, inputs, targets',
    identity='',
    incremental_update='new_tensors, old_tensors, step_size',
    inject_hyperparams='inner_factory, static_args=()',
    join_schedules='schedules, boundaries',
    keep_params_nonnegative='',
    l2_loss='predictions, targets=None',
    lamb='learning_rate, b1=0.9, b2=0.999, eps=1e-06, eps_root=0.0, weight_decay=0.0',
    linear_onecycle_schedule='transition_steps, peak_value, pct_start=0.3, pct_final=0.85, div_factor=25.0, final_div_factor=10000.0',
    linear_schedule='init_value, end_value, transition_steps, transition_begin=0',
    lookahead='fast_optimizer, sync_period, slow_step_size, reset_state=False',
    masked='inner, mask',
    matrix_inverse_pth_root='matrix, p, num_iters=100, ridge_epsilon=1e-06, error_tolerance=1e-06, precision=<opaque lax.Precision.HIGHEST>',
    maybe_update='inner, should_update_fn',
    measure_valued_jacobians='function, params, dist_builder, rng, num_samples, coupling=True',
    moving_avg_baseline='function, decay=0.99, zero_debias=True, use_decay_early_training_heuristic=True',
    multi_normal='loc, log_scale',
    noisy_sgd='learning_rate, eta=0.01, gamma=0.55, seed=0',
    pathwise_jacobians='function, params, dist_builder, rng, num_samples',
    periodic_update='new_tensors, old_tensors, steps, update_period',
    piecewise_constant_schedule='init_value, boundaries_and_scales=None',
    piecewise_interpolate_schedule='interpolate_type, init_value, boundaries_and_scales=None',
    polynomial_schedule='init_value, end_value, power, transition_steps, transition_begin=0',
    power_iteration='matrix, num_iters=100, error_tolerance=1e-06, precision=<opaque lax.Precision.HIGHEST>',
    radam='learning_rate, b1=0.9, b2=0.999, eps=1e-08, eps_root=0.0, threshold=5.0',
    rmsprop='learning_rate, decay=0.9, eps=1e-08, initial_scale=0.0, centered=False, momentum=None, nesterov=False',
    scale='step_size',
    scale_by_adam='b1=0.9, b2=0.999, eps=1e-08, eps_root=0.0',
    scale_by_belief='b1=0.9, b2=0.999, eps=0.0, eps_root=1e-16',
    scale_by_radam='b1=0.9, b2=0.999, eps=1e-08, eps_root=0.0, threshold=5.0',
    scale_by_rms='decay=0.9, eps=1e-08, initial_scale=0.0',
    scale_by_rss='initial_accumulator_value=0.1, eps=1e-07',
    scale_by_schedule='step_size_fn',
    scale_by_sm3='b1=0.9, b2=1.0, eps=1e-08',
    scale_by_stddev='decay=0.9, eps=1e-08, initial_scale=0.0',
    scale_by_trust_ratio='min_norm=0.0',
    scale_by_yogi='b1=0.9, b2=0.999, eps=0.001, eps_root=0.0, initial_accumulator_value=1e-06',
    score_function_jacobians='function, params, dist_builder, rng, num_samples',
    sgd='learning_rate, momentum=None, nesterov=False',
    sgdr_schedule='cosine_kwargs',
    sigmoid_binary_cross_entropy='logits, labels',
    sm3='learning_rate, momentum=0.9',
    smooth_labels='labels, alpha',
    softmax_cross_entropy='logits, labels',
    trace='decay, nesterov=False, accumulator_dtype=None',
    warmup_cosine_decay_schedule='init_value, peak_value, warmup_steps, decay_steps, end_value=0.0',
    warmup_exponential_decay_schedule='init_value, peak_value, warmup_steps, transition_steps, decay_rate, transition_begin=0, staircase=False, end_value=None',
    yogi='learning_rate, b1=0.9, b2=0.999, eps=0.001',
    zero_nans='',
)
CLASSES = dict(
    AdaptiveGradClipState='',
    AddDecayedWeightsState='',
    AddNoiseState='count rng_key',
    AdditiveWeightDecayState='',
    ApplyEvery='count grad_acc',
    ApplyIfFiniteState='notfinite_count last_finite total_notfinite inner_state',
    ClipByGlobalNormState='',
    ClipState='',
    DifferentiallyPrivateAggregateState='rng_key',
    EmaState='count ema',
    EmptyState='',
    GradientTransformation='init update',
    InjectHyperparamsState='count hyperparams inner_state',
    LookaheadParams='fast slow',
    LookaheadState='fast_state steps_since_sync',
    MaskedState='inner_state',
    MaybeUpdateState='inner_state step',
    MultiStepsState='mini_step gradient_step inner_opt_state acc_grads',
    NonNegativeParamsState='',
    ScaleByAdamState='count mu nu',
    ScaleByFromageState='count',
    ScaleByRStdDevState='mu nu',
    ScaleByRmsState='nu',
    ScaleByRssState='sum_of_squares',
    ScaleBySM3State='mu nu',
    ScaleByScheduleState='count',
    ScaleByTrustRatioState='',
    ScaleState='',
    TraceState='trace',
    ZeroNansState='found_nan',
)
STATES = dict(
    MultiSteps='mini_step gradient_step inner_opt_state acc_grads',
    adabelief='count mu nu',
    adagrad='sum_of_squares',
    adam='count mu nu',
    adamw='count mu nu',
    add_noise='count rng_key',
    apply_every='count grad_acc',
    apply_if_finite='notfinite_count last_finite total_notfinite inner_state',
    differentially_private_aggregate='rng_key',
    dpsgd='rng_key',
    ema='count ema',
    inject_hyperparams='count hyperparams inner_state',
    lamb='count mu nu',
    lookahead='fast_state steps_since_sync',
    masked='inner_state',
    maybe_update='inner_state step',
    noisy_sgd='count rng_key',
    radam='count mu nu',
    scale_by_adam='count mu nu',
    scale_by_belief='count mu nu',
    scale_by_radam='count mu nu',
    scale_by_rms='nu',
    scale_by_rss='sum_of_squares',
    scale_by_schedule='count',
    scale_by_sm3='mu nu',
    scale_by_stddev='mu nu',
    scale_by_yogi='count mu nu',
    sm3='mu nu',
    trace='trace',
    yogi='count mu nu',
    zero_nans='found_nan',
)
METHODS = dict(
    init='params', update='grads, state, params=None', has_updated='state', gradient_transformation='')


def parse(text):
  """[(name, star, has default, default)]"""
  out = []
  for part in [p.strip() for p in split(text)]:
    if not part: continue
    star = len(part) - len(part.lstrip('*'))
    n, _, d = part.lstrip('*').partition('=')
    out.append((n, star, bool(_), d))
  return out


def split(text):
  depth, cur, out = 0, '', []
  for c in text:
    depth += (c in '([<') - (c in ')]>')
    if c == ',' and not depth: out.append(cur); cur = ''
    else: cur += c
  return out + [cur]


def number(v):
  if isinstance(v, bool) or v is None or isinstance(v, (str, tuple, list, dict)): return None
  if isinstance(v, (int, float)): return float(v)
  if isinstance(v, np.generic): return float(v)
  if isinstance(v, Arr):
    if v.shape != (): return None
    v = v.a.item()
  if isinstance(v, T.Term): return float(v.args[0]) if v.op == 'const' else None
  return float(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else None


def same_default(got, text):
  """True / False; None where the two cannot be compared."""
  try: want = eval(text, {})
  except Exception: return str(got) == text or None
  if isinstance(want, bool) or want is None:
    if isinstance(got, (bool, np.bool_, type(None))): return got == want and type(got) is type(want) or (isinstance(want, bool) and isinstance(got, np.bool_) and bool(got) == want)
    return False
  if isinstance(want, (int, float)):
    g = number(got)
    return None if g is None and not isinstance(got, (bool, str, type(None), tuple, list, dict)) else g is not None and g == float(want)
  if isinstance(want, tuple): return isinstance(got, (tuple, list, frozenset, set)) and tuple(got) == want
  return got == want


def signature(ctx, obj):
  """[(name, kind, has default, default)] or None."""
  I = ctx.I
  try:
    s = I.call(I.getattr(I.load('inspect'), 'signature'), [obj], {})
    out = []
    for k, p in I.getattr(s, 'parameters').items():
      d = I.getattr(p, 'default')
      out.append((k, repr(I.getattr(p, 'kind')), '_empty' not in repr(d), d))
    return out
  except IT.AbsRaise: return None


def compare(ctx, name, got, text):
  want = parse(text)
  if got is None or (any('VAR_KEYWORD' in k for _, k, _, _ in got) and not any(s == 2 for _, s, _, _ in want)):
    ctx.notes.append('%s: signature not comparable' % name) if hasattr(ctx, 'notes') else None
    return
  pos = [g for g in got if 'VAR_' not in g[1]]
  names = [g[0] for g in pos]
  for i, (n, star, has, d) in enumerate(want):
    if star:
      ctx.true('parameter', '%s takes any number of arguments' % name, any('VAR_POSITIONAL' in g[1] for g in got), '%s no longer takes *%s' % (name, n))
      continue
    ok = i < len(pos) and names[i] == n and 'KEYWORD_ONLY' not in pos[i][1] and 'POSITIONAL_ONLY' not in pos[i][1]
    if not ctx.true('parameter', '%s: parameter %d is %s, by position and by name' % (name, i + 1, n), ok,
                    '%s has parameters (%s); the documented parameter %d is %s' % (name, ', '.join(names), i + 1, n)): return
    if not has:
      ctx.true('parameter', '%s: %s' % (name, n), True, '')
      continue
    if not ctx.true('default', '%s: %s may be left out' % (name, n), pos[i][2], '%s requires %s' % (name, n)): continue
    eq = same_default(pos[i][3], d)
    if eq is None: continue
    ctx.true('default', '%s: %s defaults to %s' % (name, n, d), bool(eq), '%s: %s defaults to %s instead of %s' % (name, n, pos[i][3], d))
  for k, kind, has, d in pos[len(want):]:
    ctx.true('parameter', '%s: additional parameter %s is optional' % (name, k), has, '%s requires %s, which is not documented' % (name, k))


def functions(ctx):
  I = ctx.I
  m = I.load('optax')
  for n, text in FUNCTIONS.items():
    if not ctx.has(n):
      ctx.true('parameter', n + ' exists', False, 'optax.%s is not there' % n)
      continue
    compare(ctx, n, signature(ctx, I.getattr(m, n)), text)


def classes(ctx):
  I = ctx.I
  m = I.load('optax')
  for n, text in CLASSES.items():
    want = text.split()
    if not ctx.has(n):
      ctx.true('fields', n + ' exists', False, 'optax.%s is not there' % n)
      continue
    c = I.getattr(m, n)
    f = c.nt_fields if isinstance(c, IT.AClass) else None
    if f is None: continue
    ctx.true('fields', '%s has the fields %s' % (n, ', '.join(want) or '(none)'), list(f[:len(want)]) == want, 'the fields are %s' % (f,))
    for x in f[len(want):]: ctx.true('fields', '%s: further field %s is optional' % (n, x), x in c.nt_defaults, '%s cannot be built without %s' % (n, x))


def find(ctx, tree, want):
  """A state object in a (possibly nested) state that has all wanted fields."""
  if isinstance(tree, ANT):
    if all(w in tree.cls.nt_fields for w in want): return True
    return any(find(ctx, x, want) for x in tree)
  if isinstance(tree, (list, tuple)): return any(find(ctx, x, want) for x in tree)
  if isinstance(tree, dict): return any(find(ctx, x, want) for x in tree.values())
  if isinstance(tree, IT.Obj): return all(w in tree.attrs for w in want)
  return False


def returned(ctx, name, want):
  from .. import registry
  want = want.split()
  for e in registry.everything():
    if e.factory != name: continue
    tx = e.build(ctx)
    p, g = ctx.tree('p', TREE, 'real'), ctx.tree('g', registry.batched(TREE, 3) if e.batch else TREE, 'real')
    if e.pair: p = registry.pair(ctx, p)
    s = ctx.init(tx, p)
    for when in ('init', 'first update', 'second update'):
      ctx.true('state', '%s, %s: the state has %s' % (e.name, when, ', '.join(want)), find(ctx, s, want), 'the state is %s' % V.describe(s)[:200])
      u, s = ctx.update(tx, g, s, p)


def methods(ctx):
  I = ctx.I
  if not ctx.has('MultiSteps'): return
  ms = ctx.call('MultiSteps', ctx.call('sgd', 0.1), 2)
  for n, text in METHODS.items(): compare(ctx, 'MultiSteps.' + n, signature(ctx, I.getattr(ms, n)), text)


def check(ctx):
  ctx.section('functions', functions)
  ctx.section('classes', classes)
  ctx.section('methods of MultiSteps', methods)
  for n, want in STATES.items(): ctx.section('states of ' + n, returned, n, want)
