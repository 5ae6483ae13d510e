"""Development aid, NOT a check: programs run both by the analyser and by real
jax/optax to validate the analyser's transfer functions (see validate.py)."""
import jax
import jax.numpy as jnp
import numpy as np
import optax
from optax._src import base, combine, transform, clipping, numerics, linear_algebra, utils
from optax._src import stochastic_gradient_estimators as sge, control_variates as cv

CASES = {}


def case(f):
  CASES[f.__name__] = f
  return f


def tree(s=1.0, dt=jnp.float32):
  return {'w': jnp.asarray(np.array([[0.5, -1.5, 2.0], [0.25, 3.0, -0.75]]) * s, dt),
          'b': jnp.asarray(np.array([0.1, -0.2, 0.3]) * s, dt),
          's': (jnp.asarray(1.3 * s, dt),)}


def mixed(s=1.0):
  t = tree(s)
  return {'w': t['w'].astype(jnp.float16), 'b': t['b'].astype(jnp.bfloat16), 's': t['s']}


def run(tx, params, n=3, mk=tree):
  out = []
  st = tx.init(params)
  out.append(st)
  for i in range(n):
    g = mk(0.7 * (i + 1) - 0.9)
    u, st = tx.update(g, st, params)
    params = optax.apply_updates(params, u)
    out.append((u, st, params))
  return out


def _txs():
  sch = optax.exponential_decay(0.1, 2, 0.5)
  return {
      'trace': optax.trace(0.9), 'trace_n': optax.trace(0.9, True), 'ema': optax.ema(0.9),
      'ema2': optax.ema(0.9, False), 'emad': optax.ema(0.9, True, accumulator_dtype=jnp.float16),
      'traced': optax.trace(0.9, accumulator_dtype=jnp.bfloat16),
      'rss': optax.scale_by_rss(), 'rms': optax.scale_by_rms(), 'std': optax.scale_by_stddev(),
      'adam': optax.scale_by_adam(), 'adam_r': optax.scale_by_adam(eps_root=1e-4),
      'belief': optax.scale_by_belief(), 'yogi': optax.scale_by_yogi(), 'radam': optax.scale_by_radam(threshold=1.0),
      'radam2': optax.scale_by_radam(),
      'scale': optax.scale(0.3), 'sbs': optax.scale_by_schedule(sch), 'wd': optax.add_decayed_weights(0.1),
      'trust': optax.scale_by_trust_ratio(), 'central': optax.centralize(), 'clip': optax.clip(0.5),
      'cgn': optax.clip_by_global_norm(1.0), 'agc': optax.adaptive_grad_clip(0.1), 'zn': optax.zero_nans(),
      'nn': optax.keep_params_nonnegative(), 'ident': optax.identity(),
      'adamA': optax.adam(0.1), 'adamS': optax.adam(sch), 'adamw': optax.adamw(0.1, weight_decay=0.1),
      'adabelief': optax.adabelief(0.1), 'adagrad': optax.adagrad(0.1), 'fromage': optax.fromage(0.1),
      'lamb': optax.lamb(0.1), 'rmsprop': optax.rmsprop(0.1), 'rmspropc': optax.rmsprop(0.1, centered=True, momentum=0.9, nesterov=True),
      'sgd': optax.sgd(0.1), 'sgdm': optax.sgd(0.1, 0.9, True), 'yogiA': optax.yogi(0.1), 'radamA': optax.radam(0.1),
      'masked': optax.masked(optax.adam(0.1), {'w': True, 'b': False, 's': True}),
      'aif': optax.apply_if_finite(optax.adam(0.1), 2), 'every': optax.apply_every(2),
      'flat': optax.flatten(optax.adam(0.1)), 'mu': optax.maybe_update(optax.adam(0.1), lambda s: s % 2 == 0),
      'ms': optax.MultiSteps(optax.adam(0.1), 2).gradient_transformation(),
      'ms2': optax.MultiSteps(optax.adam(0.1), lambda s: s + 1, use_grad_mean=False).gradient_transformation(),
      'ihp': optax.inject_hyperparams(optax.adam)(0.1), 'ihps': optax.inject_hyperparams(optax.adam)(learning_rate=sch, b1=0.8),
      'ihpw': optax.inject_hyperparams(optax.sgd)(learning_rate=0.1, momentum=0.9),
  }


for _k in _txs():
  for _mk, _n in ((tree, 'f32'), (mixed, 'mix'), (lambda s=1.0: tree(s, jnp.bfloat16), 'bf')):
    def _f(_k=_k, _mk=_mk):
      return run(_txs()[_k], _mk(1.0), 3, _mk)
    CASES['tx_%s_%s' % (_k, _n)] = _f
    def _f(_k=_k, _mk=_mk):
      tx = _txs()[_k]
      st = tx.init(_mk(1.0))
      return jax.jit(tx.update)(_mk(0.7), st, _mk(1.0))
    CASES['jit_%s_%s' % (_k, _n)] = _f


def fl(s=1.0):
  t = tree(s)
  return [t['w'], t['b']]


for _k in ('sm3',):
  def _f():
    return run(optax.sm3(0.1), fl(), 3, fl)
  CASES['tx_sm3'] = _f
  def _f():
    return run(optax.scale_by_sm3(0.9, 0.95), fl(), 3, fl)
  CASES['tx_sm3b'] = _f


def _scheds():
  return {
      'const': optax.constant_schedule(0.3), 'poly': optax.polynomial_schedule(1.0, 0.1, 2, 5, 2),
      'lin': optax.linear_schedule(1.0, 0.0, 6), 'exp': optax.exponential_decay(1.0, 3, 0.5, 1),
      'expst': optax.exponential_decay(1.0, 3, 0.5, 1, True, 0.3), 'expup': optax.exponential_decay(1.0, 3, 1.5, 1, True, 2.3),
      'cos': optax.cosine_decay_schedule(1.0, 7, 0.1), 'pc': optax.piecewise_constant_schedule(1.0, {2: 0.5, 4: 0.1}),
      'pi': optax.piecewise_interpolate_schedule('linear', 1.0, {2: 0.5, 6: 0.1}),
      'pic': optax.piecewise_interpolate_schedule('cosine', 1.0, {2: 0.5, 6: 0.1}),
      'l1': optax.linear_onecycle_schedule(20, 1.0), 'c1': optax.cosine_onecycle_schedule(20, 1.0),
      'join': optax.join_schedules([optax.linear_schedule(0., 1., 3), optax.constant_schedule(2.)], [4]),
      'wc': optax.warmup_cosine_decay_schedule(0., 1., 3, 9, 0.1), 'we': optax.warmup_exponential_decay_schedule(0., 1., 3, 4, 0.5, 1, True, 0.2),
      'sgdr': optax.sgdr_schedule([dict(init_value=0., peak_value=1., decay_steps=5, warmup_steps=2, end_value=0.1), dict(init_value=0., peak_value=.5, decay_steps=7, warmup_steps=3, end_value=0.0)]),
  }


for _k in _scheds():
  def _f(_k=_k):
    s = _scheds()[_k]
    return [s(i) for i in range(0, 13, 2)] + [s(jnp.asarray(i)) for i in range(1, 12, 3)] + [jax.jit(s)(jnp.asarray(5))]
  CASES['sched_' + _k] = _f


@case
def losses():
  x = jnp.array([[0.5, -1.5, 2.0], [0.25, 3.0, -0.75]])
  y = jnp.array([[0., 1., 0.], [0.2, 0.3, 0.5]])
  return [optax.l2_loss(x, y), optax.l2_loss(x), optax.huber_loss(x, y, 0.7), optax.huber_loss(x),
          optax.sigmoid_binary_cross_entropy(x, y), optax.softmax_cross_entropy(x, y), optax.smooth_labels(y, 0.1),
          optax.cosine_similarity(x, y), optax.cosine_distance(x, y, 1e-3), 
          jax.grad(lambda a: jnp.sum(optax.cosine_similarity(a, y)))(x), jax.grad(lambda a: jnp.sum(optax.softmax_cross_entropy(a, y)))(x),
          jax.grad(lambda a: jnp.sum(optax.huber_loss(a, y)))(x)]


@case
def losses_bf():
  x = jnp.array([[0.5, -1.5, 2.0], [0.25, 3.0, -0.75]]).astype(jnp.bfloat16)
  y = jnp.array([[0., 1., 0.], [0.2, 0.3, 0.5]]).astype(jnp.bfloat16)
  return [optax.l2_loss(x, y), optax.l2_loss(x), optax.huber_loss(x, y, 0.7), optax.huber_loss(x),
          optax.sigmoid_binary_cross_entropy(x, y), optax.softmax_cross_entropy(x, y), optax.smooth_labels(y, 0.1),
          optax.cosine_similarity(x, y), optax.cosine_distance(x, y, 1e-3)]


def f2(params, inputs, targets):
  return jnp.sum(jnp.square(jnp.tanh(inputs @ params['w'] + params['b']) - targets))


@case
def second():
  p = {'w': jnp.array([[0.5], [-0.3]]), 'b': jnp.array([0.1])}
  x = jnp.array([[1., 2.], [0.5, -1.], [0.2, 0.3]])
  y = jnp.array([[0.1], [0.2], [0.3]])
  v = jnp.array([1., 2., 3.])
  return [optax.hvp(f2, v, p, x, y), optax.hessian_diag(f2, p, x, y), optax.fisher_diag(f2, p, x, y)]


@case
def updates():
  p, u = tree(), tree(0.3)
  pm, um = mixed(), tree(0.3)
  return [optax.apply_updates(p, u), optax.apply_updates(pm, um), optax.incremental_update(u, p, 0.1),
          optax.periodic_update(u, p, jnp.asarray(4), 2), optax.periodic_update(u, p, jnp.asarray(3), 2),
          optax.global_norm(p), optax.global_norm(pm)]


@case
def numer():
  x = jnp.array([0.3, -4.0])
  return [optax.safe_norm(x, 1.), optax.safe_norm(x, 9.), jax.grad(optax.safe_norm)(x, 1.), jax.grad(optax.safe_norm)(jnp.zeros(3), 0.),
          numerics.abs_sq(x), numerics.abs_sq(np.array([1., -2.])), numerics.safe_int32_increment(jnp.asarray(3, jnp.int32)), numerics.safe_int32_increment(jnp.asarray(2**31 - 1, jnp.int32))]


@case
def look():
  tx = optax.lookahead(optax.adam(0.1), 2, 0.5, True)
  p = optax.LookaheadParams.init_synced(tree())
  out = []
  st = tx.init(p)
  out.append(st)
  for i in range(3):
    u, st = tx.update(tree(0.3 * (i + 1)), st, p)
    p = optax.apply_updates(p, u)
    out.append((u, st, p))
  return out


@case
def multitx():
  tx = optax.chain(optax.clip(1.), optax.chain(optax.scale(2.), optax.adam(0.1)), optax.masked(optax.trace(0.9), lambda p: jax.tree_map(lambda x: x.ndim > 0, p)))
  return run(tx, tree())


@case
def ms_api():
  ms = optax.MultiSteps(optax.sgd(0.1), 3)
  p = tree()
  st = ms.init(p)
  out = []
  for i in range(4):
    u, st = ms.update(tree(i + 1.), st, p)
    out.append((u, st, ms.has_updated(st)))
  return out


@case
def utilsx():
  x = jnp.array([[1., 2.], [3., 4.]])
  return [utils.tile_second_to_last_dim(x) if hasattr(utils, 'tile_second_to_last_dim') else 0.,
          utils.canonicalize_dtype(jnp.float32) is not None, utils.cast_tree(tree(), jnp.float16), 
          utils.set_diags(jnp.ones((2, 3, 3)), jnp.array([[1., 2., 3.], [4., 5., 6.]]))]


@case
def lin():
  m = jnp.array([[2., .5], [.5, 3.]])
  return [linear_algebra.matrix_inverse_pth_root(m, p, num_iters=20)[0] for p in (1, 2, 4)]


@case
def ctrl():
  b, a, s0 = optax.moving_avg_baseline(lambda x: jnp.sum(x ** 2), decay=0.9)
  d = optax.multi_normal(jnp.array([0.1, 0.2]), jnp.array([0.3, -0.1]))
  samples = jnp.array([[0.5, -0.3], [0.2, 0.8]])
  st = s0
  out = [st]
  for i in range(3):
    out.append(b([d.params], samples[0], st) if False else 0.)
  return out + [d.log_prob(samples), d.log_scale, d.params]


@case
def promo():
  h = jnp.ones((2,), jnp.float16)
  bf = jnp.ones((2,), jnp.bfloat16)
  f = jnp.ones((2,), jnp.float32)
  i = jnp.ones((2,), jnp.int32)
  i8 = jnp.ones((2,), jnp.int8)
  b = jnp.array([True, False])
  w = jnp.asarray(1.0)
  wi = jnp.asarray(2)
  return [h + 1.0, h + f, h + bf, h * i, i * 1.0, i + 1, i8 + 1, i8 + i, b + 1, b * 1.0, b * h, w + 1, w * h, wi * h, wi + i8,
          jnp.where(b, 1.0, h), jnp.where(b, h, 0.0), jnp.where(b, 1, 2.0), jnp.maximum(h, 0.0), jnp.sqrt(i), jnp.sqrt(h), jnp.sum(h), jnp.sum(b), jnp.mean(i),
          jnp.mean(h), jnp.exp(1.0), jnp.sqrt(2), i / i, i // 2, i ** 2, h ** 2, 2 ** h, h ** w, jnp.square(h), jnp.power(h, 2), jnp.power(2.0, i), wi * 1.0,
          jnp.zeros_like(h), jnp.zeros([]), jnp.ones((2,)), jnp.zeros([], jnp.int32), jnp.full((2,), 1.0), jnp.full((2,), 1), jnp.full_like(h, 3.0), jnp.asarray([1., 2.]), jnp.array(3),
          np.array([1., 2.]) * h, np.float32(2.) * h, np.float64(2.) * h, np.array(2.) * f, jnp.arange(3), jnp.arange(3.), jnp.linspace(0., 1., 3), jnp.stack([h, f]), jnp.concatenate([h, bf]),
          jnp.clip(h, -1.0, 1.0), jnp.minimum(w, f), jnp.cos(w), 1 - b, jnp.sign(i), jnp.abs(h), jnp.asarray(1.0, jnp.float16) * w, -w, w == f, jnp.logical_and(b, b), (i > 1) * h,
          jnp.prod(h), jnp.max(h), jnp.linalg.norm(h), jnp.linalg.norm(i), jnp.dot(h, f), h @ h, jnp.einsum('i,i->', h, f), jnp.cumsum(h), jnp.var(h), jnp.std(h), 
          jax.lax.cond(True, lambda x: x, lambda x: x, w), jax.lax.stop_gradient(w), jnp.array(w), jnp.asarray(w, dtype=jnp.float32), w.astype(jnp.float32), jnp.isfinite(h), jnp.float32(3), jnp.int32(4), jnp.inf * h, jnp.log(w), jax.nn.relu(h), jax.nn.softmax(h), jax.nn.log_softmax(h), jax.nn.log_sigmoid(h), jax.nn.softplus(w), jax.nn.one_hot(i, 3)]
