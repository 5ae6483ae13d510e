"""Purity (effect analysis): every public callable is interpreted with all its arguments, the closures
it returns and every module of the library marked as shared; a write to any of them, to a global or an
outliving closure variable, a read of global randomness, clock, file or environment, and any
difference between the value graphs of repeated calls is reported with its location."""
from .. import registry as R
from .. import terms as T, values as V
from ..spec import L, TREE
from ..values import Arr
from .C04 import SHAPE, SCHEDULES, FACTORIES, _bin

RULE = """no write to shared or argument containers, no effectful read (effect analysis); repeated calls give identical value graphs"""
TECHNIQUE = 'static effect and mutation analysis (abstract interpretation with protected heap) plus value-graph identity of repeated calls'
FLOOR = 250
KINDS = ('mutation', 'global-write', 'closure-write', 'effect', 'io')


def snap(x):
  """Deep structural snapshot of containers and array terms."""
  if isinstance(x, dict): return ('d', tuple((k, snap(v)) for k, v in x.items()))
  if isinstance(x, V.ANT): return ('n', tuple(snap(v) for v in x))
  if isinstance(x, (list, tuple)): return (type(x).__name__, tuple(snap(v) for v in x))
  if isinstance(x, (set, frozenset)): return ('s', tuple(sorted(map(str, x))))
  if isinstance(x, Arr): return ('a', x.dtype, x.shape, tuple(t.id for t in x.terms()))
  return ('o', id(x))


def same(a, b):
  """Equal results of two calls (functions are compared by being called elsewhere)."""
  la, ta = V.tree_flatten(a)
  lb, tb = V.tree_flatten(b)
  if ta != tb: return 'structure %s, then %s' % (V.describe(a)[:200], V.describe(b)[:200])
  for k, (x, y) in enumerate(zip(la, lb)):
    if isinstance(x, (Arr, int, float)) and isinstance(y, (Arr, int, float)):
      X, Y = V.as_arr(x), V.as_arr(y)
      if X.shape != Y.shape or X.dtype != Y.dtype or any(p is not q for p, q in zip(X.terms(), Y.terms())):
        return 'leaf %d is %s, then %s' % (k, T.show(X.terms()[0], 5) if X.terms() else X, T.show(Y.terms()[0], 5) if Y.terms() else Y)
  return None


def pure(ctx, rule, label, fn, *args, roots=()):
  """fn(*args) twice under protection: no effects, arguments untouched, same result."""
  ctx.anchor = label
  I = ctx.I
  I.protect((I.load('optax'), 'a module of the library'), *[(a, 'an argument of %s' % label) for a in args], *[(r, 'a value captured by %s' % label) for r in roots])
  before = [snap(a) for a in args]
  n = len(I.events)
  a = ctx.guard(label, fn, *args, rule=rule)
  b = ctx.guard(label + ' again', fn, *args, rule=rule)
  ctx.no_events(rule, label, KINDS, n)
  ctx.true(rule, label + ': arguments untouched', [snap(x) for x in args] == before, 'an argument is changed by the call')
  if a is not None and b is not None:
    m = same(a, b)
    ctx.true(rule, label + ': repeated call', m is None, 'repeating the call gives another result: %s' % m)
  return a


def entry(ctx, e):
  tx = pure(ctx, 'factory', e.name, lambda: e.build(ctx))
  if tx is None: return
  p = ctx.tree('p', SHAPE)
  par = R.pair(ctx, p, ctx.tree('q', SHAPE)) if e.pair else p
  s = pure(ctx, 'init', e.name, lambda q: ctx.init(tx, q), par, roots=(tx,))
  if s is None: return
  given = (e.params == 'required',) if e.params == 'required' else (False, True)
  for gv in given:
    st = s
    for k in range(3):
      g = ctx.tree('g%d' % k, R.batched(SHAPE, 2) if e.batch else SHAPE)
      r = pure(ctx, 'update', '%s step %d%s' % (e.name, k + 1, ' with params' if gv else ''), lambda gg, ss, *pp: ctx.update(tx, gg, ss, *pp), g, st, *([par] if gv else []), roots=(tx,))
      if r is None: break
      st = r[1]
  # two instances do not interfere: a fresh transformation behaves as the first did
  tx2 = e.build(ctx)
  s2 = ctx.guard(e.name + ' second instance', ctx.init, tx2, par)
  if s2 is not None:
    m = same(s, s2)
    ctx.true('instances', e.name, m is None, 'a second instance starts differently: %s' % m)


def schedules(ctx, name, args):
  lab = '%s%s' % (name, args)
  args = [V.tree_map(lambda x: x, a) if isinstance(a, (list, dict)) else a for a in args]
  s = pure(ctx, 'schedules', lab, lambda *a: ctx.call(name, *a), *args)
  for c in (ctx.arr('c', (), ('ints', 0, 40), 'int32'), V.const_arr(4, 'int32'), 4):
    pure(ctx, 'schedules', '%s at %s' % (lab, c if isinstance(c, int) else 'traced' if c.concrete() is None else 'array'), lambda n: ctx.I.call(s, [n]), c, roots=(s,) + tuple(a for a in args if isinstance(a, (list, dict))))


def containers(ctx):
  """Lists, dicts and masks handed to constructors are only read, now and later."""
  a, b = ctx.call('linear_schedule', 1.0, 0.1, 10), ctx.call('constant_schedule', 0.3)
  ls, bs = [a, b, a], [5, 12]
  s = pure(ctx, 'containers', 'join_schedules', lambda x, y: ctx.call('join_schedules', x, y), ls, bs)
  pure(ctx, 'containers', 'join_schedules at a step', lambda n: ctx.I.call(s, [n]), ctx.arr('c', (), ('ints', 0, 40), 'int32'), roots=(s, ls, bs))
  for nm, d in (('piecewise_constant_schedule', {8: 0.5, 3: 0.1}),):
    s = pure(ctx, 'containers', nm, lambda x, nm=nm: ctx.call(nm, 1.0, x), d)
    pure(ctx, 'containers', nm + ' at a step', lambda n: ctx.I.call(s, [n]), ctx.arr('c', (), ('ints', 0, 40), 'int32'), roots=(s, d))
  for k in ('linear', 'cosine'):
    d = {8: 0.5, 3: 0.1}
    s = pure(ctx, 'containers', 'piecewise_interpolate_schedule ' + k, lambda x, k=k: ctx.call('piecewise_interpolate_schedule', k, 1.0, x), d)
    pure(ctx, 'containers', 'piecewise_interpolate_schedule %s at a step' % k, lambda n: ctx.I.call(s, [n]), ctx.arr('c', (), ('ints', 0, 40), 'int32'), roots=(s, d))
  kws = [dict(init_value=0.0, peak_value=1.0, warmup_steps=2, decay_steps=5), dict(init_value=0.0, peak_value=0.5, warmup_steps=3, decay_steps=9)]
  pure(ctx, 'containers', 'sgdr_schedule', lambda x: ctx.call('sgdr_schedule', x), kws)
  p = ctx.tree('p', TREE)
  mask = {'w': True, 'b': (False,), 'z': [True]}
  for k, m in (('tree', mask), ('prefix', {'w': True, 'b': False, 'z': True})):
    tx = pure(ctx, 'containers', 'masked with a %s mask' % k, lambda x: ctx.call('masked', ctx.call('adam', 0.1), x), m)
    s = pure(ctx, 'containers', 'masked init, %s' % k, lambda q: ctx.init(tx, q), p, roots=(tx, m))
    pure(ctx, 'containers', 'masked update, %s' % k, lambda g, ss: ctx.update(tx, g, ss), ctx.tree('g', TREE), s, roots=(tx, m))
  sa, kw = {'nesterov'}, {'decay': 0.9, 'nesterov': True}
  fac = pure(ctx, 'containers', 'inject_hyperparams', lambda f, x: ctx.call('inject_hyperparams', f, x), ctx.f('trace'), sa)
  tx = pure(ctx, 'containers', 'injected factory', lambda k: ctx.I.call(fac, [], k), kw, roots=(fac, sa))
  s = pure(ctx, 'containers', 'injected init', lambda q: ctx.init(tx, q), p, roots=(tx, fac, kw))
  pure(ctx, 'containers', 'injected update', lambda g, ss: ctx.update(tx, g, ss), ctx.tree('g', TREE), s, roots=(tx, fac, kw))
  # hyperparameters shared between two optimizers from one factory
  tx2 = ctx.I.call(fac, [], {'decay': 0.1})
  s2 = ctx.init(tx2, p)
  r1, r2 = ctx.update(tx, ctx.tree('g', TREE), s), ctx.update(tx, ctx.tree('g', TREE), s)
  del s2
  m = same(r1, r2)
  ctx.true('containers', 'two optimizers from one injected factory', m is None, m or '')


def wrappers_api(ctx):
  """MultiSteps object methods."""
  ms = ctx.call('MultiSteps', ctx.call('adam', 0.1), 3)
  I = ctx.I
  p = ctx.tree('p', SHAPE)
  s = pure(ctx, 'MultiSteps', 'init', lambda q: I.call(I.getattr(ms, 'init'), [q]), p, roots=(ms,))
  for k in range(4):
    r = pure(ctx, 'MultiSteps', 'update %d' % (k + 1), lambda g, ss: I.call(I.getattr(ms, 'update'), [g, ss, p]), ctx.tree('g%d' % k, SHAPE), s, roots=(ms,))
    s = r[1]
    pure(ctx, 'MultiSteps', 'has_updated %d' % (k + 1), lambda ss: I.call(I.getattr(ms, 'has_updated'), [ss]), s, roots=(ms,))
  pure(ctx, 'MultiSteps', 'gradient_transformation', lambda: I.call(I.getattr(ms, 'gradient_transformation'), []), roots=(ms,))
  # the members handed to a chain
  txs = [ctx.call('scale', 2.0), ctx.call('trace', 0.9)]
  c = pure(ctx, 'chain', 'constructor', lambda l: ctx.call('chain', *l), txs)
  s = ctx.init(c, p)
  pure(ctx, 'chain', 'update', lambda g, ss: ctx.update(c, g, ss), ctx.tree('g', SHAPE), s, roots=(c, txs))
  pr = ctx.f('LookaheadParams')
  pure(ctx, 'lookahead', 'init_synced', lambda q: I.call(I.getattr(pr, 'init_synced'), [q]), p)


def losses(ctx):
  x, y, w = ctx.arr('x', (2, 3)), ctx.arr('y', (2, 3)), ctx.arr('w', (2, 3), 'unit')
  for nm, args in (('l2_loss', (x, y)), ('huber_loss', (x, y)), ('sigmoid_binary_cross_entropy', (x, w)), ('softmax_cross_entropy', (x, w)), ('cosine_similarity', (x, y)), ('cosine_distance', (x, y)), ('smooth_labels', (w, 0.1))):
    pure(ctx, 'losses', nm, lambda *a, nm=nm: ctx.call(nm, *a), *args)


def helpers(ctx):
  t, o = ctx.tree('t', TREE), ctx.tree('o', TREE)
  n = ctx.arr('n', (), 'count', 'int32')
  pure(ctx, 'helpers', 'global_norm', lambda a: ctx.call('global_norm', a), t)
  pure(ctx, 'helpers', 'apply_updates', lambda a, b: ctx.call('apply_updates', a, b), t, o)
  pure(ctx, 'helpers', 'incremental_update', lambda a, b: ctx.call('incremental_update', a, b, 0.1), t, o)
  pure(ctx, 'helpers', 'periodic_update', lambda a, b, s: ctx.call('periodic_update', a, b, s, 3), t, o, n)
  m = ctx.arr('m', (2, 2))
  pure(ctx, 'helpers', 'power_iteration', lambda a: ctx.call('power_iteration', a, 3), m)
  pure(ctx, 'helpers', 'matrix_inverse_pth_root', lambda a: ctx.call('matrix_inverse_pth_root', a, 4, 1), m)
  u = '_src.utils.'
  pure(ctx, 'helpers', 'set_diags', lambda a, b: ctx.call(u + 'set_diags', a, b), ctx.arr('d', (2, 2, 2)), ctx.arr('nd', (2, 2)))
  pure(ctx, 'helpers', 'tile_second_to_last_dim', lambda a: ctx.call(u + 'tile_second_to_last_dim', a), m)
  pure(ctx, 'helpers', 'cast_tree', lambda a: ctx.call(u + 'cast_tree', a, ctx.I.getattr(ctx.I.load('jax.numpy'), 'float16')), t)
  pure(ctx, 'helpers', 'safe_norm', lambda a: ctx.call('_src.numerics.safe_norm', a, 0.1), m)
  pure(ctx, 'helpers', 'safe_int32_increment', lambda a: ctx.call('_src.numerics.safe_int32_increment', a), n)


def stochastic(ctx):
  I = ctx.I
  P = {'w': ctx.arr('w', (2,)), 'b': ctx.arr('b')}
  X, Y = ctx.arr('X', (2, 2)), ctx.arr('Y', (2,))

  def loss(p, x, y):
    jn = I.load('jax.numpy')
    z = _bin(I, 'Add', I.call(I.getattr(jn, 'dot'), [x, p['w']]), p['b'])
    return I.call(I.getattr(jn, 'sum'), [_bin(I, 'Pow', _bin(I, 'Sub', I.call(I.getattr(jn, 'tanh'), [z]), y), 2)])
  lf = ctx.prim(loss, 'loss')
  pure(ctx, 'second order', 'hvp', lambda vv, p, x, y: ctx.call('hvp', lf, vv, p, x, y), ctx.arr('v', (3,)), P, X, Y)
  pure(ctx, 'second order', 'hessian_diag', lambda p, x, y: ctx.call('hessian_diag', lf, p, x, y), P, X, Y)
  pure(ctx, 'second order', 'fisher_diag', lambda p, x, y: ctx.call('fisher_diag', lf, p, x, y), P, X, Y)
  fn = ctx.prim(lambda x: I.call(I.getattr(I.load('jax.numpy'), 'sum'), [_bin(I, 'Pow', x, 3)]), 'function')
  mk = ctx.f('multi_normal')
  mean, ls, key = ctx.arr('mean', (2,)), ctx.arr('ls', (2,)), ctx.arr('key', (2,), 'key', 'uint32')
  for nm in ('score_function_jacobians', 'pathwise_jacobians', 'measure_valued_jacobians'):
    pure(ctx, 'estimators', nm, lambda ps, k, nm=nm: ctx.call(nm, fn, ps, mk, k, 2), [mean, ls], key)
  for coef in (False, True):
    for cvn, st in (('control_delta_method', None), ('moving_avg_baseline', (ctx.arr('v0', (), 'real'), ctx.arr('i', (), 'count')))):
      pure(ctx, 'control variates', '%s, coefficients estimated: %s' % (cvn, coef),
           lambda ps, k, s, cvn=cvn, coef=coef: ctx.call('control_variates_jacobians', fn, ctx.f(cvn), ctx.f('score_function_jacobians'), ps, mk, k, 2, s, coef, 3),
           [mean, ls], key, st)
  d = ctx.call('multi_normal', mean, ls)
  pure(ctx, 'distribution', 'sample', lambda k: I.call(I.getattr(d, 'sample'), [(2,), k]), key, roots=(d,))
  pure(ctx, 'distribution', 'log_prob', lambda x: I.call(I.getattr(d, 'log_prob'), [x]), ctx.arr('x', (3, 2)), roots=(d,))
  pure(ctx, 'distribution', 'params', lambda: I.getattr(d, 'params'), roots=(d,))
  pure(ctx, 'distribution', 'log_scale', lambda: I.getattr(d, 'log_scale'), roots=(d,))


def imports(ctx):
  """Importing the library has no effects beyond definitions."""
  ctx.no_events('import', 'importing optax', KINDS)


def check(ctx):
  ctx.section('imports', imports)
  for e in R.everything(): ctx.section(e.name, entry, e)
  for nm, a in SCHEDULES: ctx.section('%s%s' % (nm, a), schedules, nm, a)
  for f in (containers, wrappers_api, losses, helpers, stochastic): ctx.section(f.__name__, f)


_ = L, FACTORIES
