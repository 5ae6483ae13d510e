"""Every public gradient transformation, wrapper and optimizer alias with representative arguments:
the population over which the sweep properties (structure, purity, tracing, params, counters, keys)
quantify.  C30 checks that no public factory is missing here."""
from . import terms as T
from . import values as V
from .spec import L
from .values import Arr


class Entry:
  """build(ctx) -> transformation.  params: 'required' | 'optional'.
  batch: gradients have one more leading axis than params.  pair: params are LookaheadParams."""

  def __init__(self, name, build, params='optional', batch=False, pair=False, keeps=None, weight=1, minrank=0, floats=True, group='transform'):
    self.name, self.build, self.params, self.batch, self.pair = name, build, params, batch, pair
    self.group = group
    self.factory = name.split('(')[0]


def sched(ctx, name='sched'):
  return ctx.prim(lambda c: Arr(V.oarr(T.app(name, [V.as_arr(c).item()])), 'float32', True, True), name)


def pred(ctx):
  return ctx.prim(lambda c: Arr(V.oarr(T.app('pred', [V.as_arr(c).item()], (), True)), 'bool', False, True), 'pred')


def transforms():
  E = []

  def add(name, build, **kw): E.append(Entry(name, build, **kw))
  R = dict(params='required')
  add('identity', lambda c: c.call('identity'))
  add('clip', lambda c: c.call('clip', 0.7))
  add('clip_by_global_norm', lambda c: c.call('clip_by_global_norm', 1.3))
  add('adaptive_grad_clip', lambda c: c.call('adaptive_grad_clip', 0.4), **R)
  add('keep_params_nonnegative', lambda c: c.call('keep_params_nonnegative'), **R)
  add('zero_nans', lambda c: c.call('zero_nans'))
  add('differentially_private_aggregate', lambda c: c.call('differentially_private_aggregate', 1.0, 0.5, 3), batch=True)
  add('add_decayed_weights', lambda c: c.call('add_decayed_weights', 0.1), **R)
  add('additive_weight_decay', lambda c: c.call('additive_weight_decay', 0.1), **R)
  add('add_noise', lambda c: c.call('add_noise', 0.3, 0.55, 7))
  add('apply_every', lambda c: c.call('apply_every', 3))
  add('centralize', lambda c: c.call('centralize'))
  add('ema', lambda c: c.call('ema', 0.9))
  add('ema(no debias)', lambda c: c.call('ema', 0.9, False))
  add('scale', lambda c: c.call('scale', -0.1))
  add('scale_by_adam', lambda c: c.call('scale_by_adam'))
  add('scale_by_adam(eps_root)', lambda c: c.call('scale_by_adam', 0.8, 0.99, 1e-7, 1e-9))
  add('scale_by_belief', lambda c: c.call('scale_by_belief'))
  add('scale_by_radam', lambda c: c.call('scale_by_radam'))
  add('scale_by_rms', lambda c: c.call('scale_by_rms'))
  add('scale_by_rss', lambda c: c.call('scale_by_rss'))
  add('scale_by_schedule', lambda c: c.call('scale_by_schedule', c.call('polynomial_schedule', 1.0, 0.1, 2, 10)))
  add('scale_by_sm3', lambda c: c.call('scale_by_sm3'))
  add('scale_by_sm3(b2)', lambda c: c.call('scale_by_sm3', 0.9, 0.99))
  add('scale_by_stddev', lambda c: c.call('scale_by_stddev'))
  add('scale_by_trust_ratio', lambda c: c.call('scale_by_trust_ratio'), **R)
  add('scale_by_trust_ratio(min_norm)', lambda c: c.call('scale_by_trust_ratio', 1e-3), **R)
  add('scale_by_yogi', lambda c: c.call('scale_by_yogi'))
  add('trace', lambda c: c.call('trace', 0.9))
  add('trace(nesterov)', lambda c: c.call('trace', 0.9, True))
  for e in E: e.group = 'transform'
  return E


def lrs():
  yield 'float lr', lambda c: 0.1
  yield 'schedule', lambda c: c.call('linear_schedule', 0.1, 0.01, 10)


def aliases():
  E = []
  R = dict(params='required')

  def add(nm, *a, label='', **kw):
    k = {x: kw.pop(x) for x in list(kw) if x in ('params', 'batch')}
    for ln, lr in lrs():
      if nm in ('fromage', 'sm3') and ln != 'float lr': continue
      E.append(Entry('%s(%s)' % (nm, ', '.join([x for x in (label, ln) if x])), lambda c, nm=nm, a=a, kw=kw, lr=lr: c.call(nm, lr(c), *a, **kw), group='alias', **k))
  add('adabelief')
  add('adagrad')
  add('adam')
  add('adamw', **R)
  add('dpsgd', 1.0, 0.5, 3, batch=True)
  add('dpsgd', 1.0, 0.5, 3, 0.9, True, batch=True, label='nesterov')
  add('fromage', **R)
  add('lamb', **R)
  add('noisy_sgd')
  add('radam')
  add('rmsprop')
  add('rmsprop', momentum=0.9, nesterov=True, label='nesterov')
  add('rmsprop', centered=True, label='centered')
  add('rmsprop', centered=True, momentum=0.9, label='centered momentum')
  add('sgd')
  add('sgd', 0.9, label='momentum')
  add('sgd', 0.9, True, label='nesterov')
  add('sm3')
  add('yogi')
  return E


def inner_tx(ctx, kind):
  """Transformations the wrappers are built around."""
  if kind == 'adam': return ctx.call('adam', 0.1)
  if kind == 'adamw': return ctx.call('adamw', 0.1)
  if kind == 'noisy': return ctx.call('noisy_sgd', 0.1)
  if kind == 'schedule': return ctx.call('scale_by_schedule', ctx.call('linear_schedule', 0.1, 0.0, 5))
  if kind == 'radam': return ctx.call('radam', 0.1)
  raise KeyError(kind)


def masks(ctx, tree_like):
  n = [0]

  def g(_):
    n[0] += 1
    return n[0] % 2 == 1
  del ctx
  return V.tree_map(g, tree_like)


def wrappers(inners=('adam', 'adamw', 'schedule')):
  E = []
  for k in inners:
    req = 'required' if k == 'adamw' else 'optional'

    def add(nm, build, k=k, req=req, **kw):
      E.append(Entry('%s(%s)' % (nm, k), lambda c, b=build, k=k: b(c, inner_tx(c, k)), params=kw.pop('params', req), group='wrapper', **kw))
    add('chain', lambda c, t: c.call('chain', c.call('clip', 1.0), t, c.call('trace', 0.5)))
    add('apply_if_finite', lambda c, t: c.call('apply_if_finite', t, 2))
    add('flatten', lambda c, t: c.call('flatten', t))
    add('masked', lambda c, t: c.call('masked', t, c.prim(lambda tr: masks(c, tr), 'mask')))
    add('maybe_update', lambda c, t: c.call('maybe_update', t, c.prim(lambda s: _lt(c, s), 'should')))
    add('MultiSteps', lambda c, t: c.call('MultiSteps', t, 2))
    add('MultiSteps.gradient_transformation', lambda c, t: c.I.call(c.I.getattr(c.call('MultiSteps', t, 3), 'gradient_transformation'), []))
    add('lookahead', lambda c, t: c.call('lookahead', t, 2, 0.5), params='required', pair=True)
    add('lookahead(reset)', lambda c, t: c.call('lookahead', t, 2, 0.5, True), params='required', pair=True)
  return E


def _lt(ctx, s):
  s = V.as_arr(s)
  return Arr(V.vec(lambda t: T.lt(t, T.const(2)), s), 'bool', False, True)


def injected():
  E = []

  def add(nm, build, **kw): E.append(Entry('inject_hyperparams(%s)' % nm, build, group='inject', **kw))
  inj = lambda c, nm, *a, **k: c.I.call(c.call('inject_hyperparams', c.f(nm), *a, **k), [])
  del inj
  add('adam', lambda c: c.I.call(c.call('inject_hyperparams', c.f('adam')), [0.1]))
  add('adam, schedule', lambda c: c.I.call(c.call('inject_hyperparams', c.f('adam')), [c.call('linear_schedule', 0.1, 0.0, 9)], {'b1': 0.8}))
  add('adamw', lambda c: c.I.call(c.call('inject_hyperparams', c.f('adamw')), [], {'learning_rate': 0.1}), params='required')
  add('scale_by_sm3', lambda c: c.I.call(c.call('inject_hyperparams', c.f('scale_by_sm3')), []))
  add('sgd', lambda c: c.I.call(c.call('inject_hyperparams', c.f('sgd')), [0.1, 0.9]))
  add('rmsprop', lambda c: c.I.call(c.call('inject_hyperparams', c.f('rmsprop')), [0.1]))
  return E


def everything(): return transforms() + aliases() + wrappers() + injected()


def pair(ctx, p, q=None):
  return ctx.call('LookaheadParams', p, q if q is not None else p)


def batched(tree, n):
  """Leaf specs with a leading batch axis."""
  def go(s):
    if isinstance(s, dict): return {k: go(x) for k, x in s.items()}
    if isinstance(s, list): return [go(x) for x in s]
    if isinstance(s, tuple): return tuple(go(x) for x in s)
    if isinstance(s, L): return L(n, *s.shape, dtype=s.dtype)
    return s
  return go(tree)
