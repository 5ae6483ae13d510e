"""Traceability (effect analysis): every public transformation, wrapper, alias, schedule, loss and
helper is interpreted with abstract (traced) gradients, states, params, counts, keys and numeric
hyperparameters; any Python branch, loop bound, conversion, list index or host-NumPy call that
depends on such a value is an event with its location, and the compiled result must be the same
value graph as the uncompiled one."""
from .. import registry as R
from .. import terms as T, values as V
from ..spec import L, TREE
from ..values import Arr

RULE = """no value-dependent Python decision on a traced array (effect analysis); compiled value graph = uncompiled value graph"""
TECHNIQUE = 'static effect analysis (abstract interpretation with traced values) plus value-graph equality of compiled and uncompiled runs'
FLOOR = 250
SHAPE = {'s': L(), 'v': L(2), 'm': (L(2, 2),), 'k': [L(2, 1, 2)]}


def tr(x): return V.tree_map(lambda l: Arr(V.as_arr(l).a, V.as_arr(l).dtype, V.as_arr(l).weak, True) if isinstance(l, (Arr, int, float, bool)) else l, x)


def twice(ctx, rule, label, fn, *args, same=True):
  """fn(*args) uncompiled and compiled: no events, no raises, same graphs.  Returns the compiled result."""
  ctx.anchor = label
  I = ctx.I
  n = len(I.events)
  plain = ctx.guard(label, fn, *args, rule=rule)
  del I.events[n:]
  I.jit = True
  try:
    comp = ctx.guard(label + ' compiled', fn, *[tr(a) for a in args], rule=rule)
  finally:
    I.jit = False
  ctx.no_events(rule, label, ('concretise',), n)
  if same and plain is not None and comp is not None: ctx.eq(rule, label + ': compiled result equals uncompiled', comp, plain, ctx.val(24), dtypes=True, ieee=False)
  return comp


def entry(ctx, e):
  """init, then updates from a state whose every array is an unknown of its own."""
  tx = e.build(ctx)
  p = ctx.tree('p', SHAPE)
  par = R.pair(ctx, p, ctx.tree('q', SHAPE)) if e.pair else p
  s0 = twice(ctx, 'init', e.name, lambda q: ctx.init(tx, q), par)
  if s0 is None: return
  g = ctx.tree('g', R.batched(SHAPE, 2) if e.batch else SHAPE)
  hv = V.tree_map(unknown, s0)
  for given in ((True,) if e.params == 'required' else (False, True)):
    r = twice(ctx, 'update', '%s%s' % (e.name, ', params given' if given and e.params != 'required' else ''), lambda gg, ss, *pp: ctx.update(tx, gg, ss, *pp), g, s0, *([par] if given else []))
    twice(ctx, 'update', '%s%s from any state' % (e.name, ', params given' if given and e.params != 'required' else ''), lambda gg, ss, *pp: ctx.update(tx, gg, ss, *pp), g, hv, *([par] if given else []))
    if r is None: continue
    new = ctx.guard(e.name + ' apply', lambda: twice(ctx, 'apply', e.name, lambda a, b: ctx.call('apply_updates', a, b), par, r[0]))
    del new


def unknown(l):
  l = V.as_arr(l)
  unknown.n += 1
  dom = {'bool': 'bool', 'int32': 'count', 'uint32': 'key'}.get(l.dtype, 'pos')
  return V.sym('st%d' % unknown.n, l.shape, dom, l.dtype)


unknown.n = 0

# numeric hyperparameters that may be traced, as inject_hyperparams makes them
FACTORIES = dict(
    adabelief='learning_rate b1 b2 eps', adagrad='learning_rate initial_accumulator_value eps', adam='learning_rate b1 b2 eps eps_root',
    adamw='learning_rate b1 b2 eps eps_root weight_decay', fromage='learning_rate min_norm', lamb='learning_rate b1 b2 eps eps_root weight_decay',
    noisy_sgd='learning_rate eta gamma seed', radam='learning_rate b1 b2 eps eps_root threshold', rmsprop='learning_rate decay eps initial_scale momentum',
    sgd='learning_rate momentum', sm3='learning_rate momentum', yogi='learning_rate b1 b2 eps', dpsgd='learning_rate l2_norm_clip noise_multiplier seed momentum',
    adaptive_grad_clip='clipping eps', clip='max_delta', clip_by_global_norm='max_norm', differentially_private_aggregate='l2_norm_clip noise_multiplier seed',
    add_decayed_weights='weight_decay', add_noise='eta gamma seed', apply_every='k', ema='decay', scale='step_size', scale_by_adam='b1 b2 eps eps_root',
    scale_by_belief='b1 b2 eps eps_root', scale_by_radam='b1 b2 eps eps_root threshold', scale_by_rms='decay eps initial_scale',
    scale_by_rss='initial_accumulator_value eps', scale_by_sm3='b1 b2 eps', scale_by_stddev='decay eps initial_scale', scale_by_trust_ratio='min_norm',
    scale_by_yogi='b1 b2 eps eps_root initial_accumulator_value', trace='decay')
INTS = {'seed', 'k'}
BATCH = {'dpsgd', 'differentially_private_aggregate'}
PARAMS = {'adamw', 'fromage', 'lamb', 'adaptive_grad_clip', 'add_decayed_weights', 'scale_by_trust_ratio'}


def hyper(ctx, name, flags):
  """All numeric hyperparameters traced at once."""
  f = ctx.f(name)
  kw = {}
  for h in FACTORIES[name].split():
    dom = ('ints', 2, 6) if h in INTS else 'unit'
    kw[h] = Arr(V.oarr(T.var('h.' + h, dom)), 'int32' if h in INTS else 'float32', True, True)
  p = ctx.tree('p', SHAPE)
  g = ctx.tree('g', R.batched(SHAPE, 2) if name in BATCH else SHAPE)

  def run(kws, gg, pp):
    tx = ctx.I.call(f, [], dict(kws, **flags))
    s = ctx.init(tx, pp)
    a = [pp] if name in PARAMS else []
    u, s = ctx.update(tx, gg, s, *a)
    return ctx.update(tx, gg, s, *a)
  twice(ctx, 'hyperparameters', '%s with every numeric hyperparameter traced%s' % (name, ' ' + str(flags) if flags else ''), run, kw, g, p)


SCHEDULES = [
    ('constant_schedule', (0.3,)), ('polynomial_schedule', (1.0, 0.1, 2, 10, 3)), ('polynomial_schedule', (1.0, 0.1, 2, 0)), ('linear_schedule', (1.0, 0.1, 10)), ('linear_schedule', (1.0, 0.1, 10, 5)),
    ('exponential_decay', (1.0, 10, 0.9)), ('exponential_decay', (1.0, 10, 0.9, 3, True, 0.2)), ('cosine_decay_schedule', (1.0, 20, 0.1)),
    ('piecewise_constant_schedule', (1.0, {3: 0.5, 7: 0.1})), ('piecewise_constant_schedule', (1.0,)), ('piecewise_interpolate_schedule', ('linear', 1.0, {3: 0.5, 7: 0.1})),
    ('piecewise_interpolate_schedule', ('cosine', 1.0, {3: 0.5, 7: 0.1})), ('linear_onecycle_schedule', (20, 1.0)), ('cosine_onecycle_schedule', (20, 1.0)),
    ('warmup_cosine_decay_schedule', (0.0, 1.0, 5, 20, 0.1)), ('warmup_exponential_decay_schedule', (0.0, 1.0, 5, 20, 0.9)), ('warmup_exponential_decay_schedule', (0.0, 1.0, 5, 20, 0.9, 3, True, 0.1)),
    ('sgdr_schedule', ([dict(init_value=0.0, peak_value=1.0, warmup_steps=2, decay_steps=5), dict(init_value=0.0, peak_value=0.5, warmup_steps=3, decay_steps=9)],)),
]


def schedules(ctx, name, args):
  s = ctx.call(name, *args)
  lab = '%s%s' % (name, args)
  c = ctx.arr('c', (), ('ints', 0, 40), 'int32')
  twice(ctx, 'schedules', lab, lambda n: ctx.I.call(s, [n]), c)


def joined(ctx):
  a, b = ctx.call('linear_schedule', 1.0, 0.1, 10), ctx.call('constant_schedule', 0.3)
  c = ctx.arr('c', (), ('ints', 0, 40), 'int32')
  s = ctx.call('join_schedules', [a, b, a], [5, 12])
  twice(ctx, 'schedules', 'join_schedules', lambda n: ctx.I.call(s, [n]), c)


def losses(ctx):
  x, y, w = ctx.arr('x', (2, 3)), ctx.arr('y', (2, 3)), ctx.arr('w', (2, 3), 'unit')
  for nm, args in (('l2_loss', (x, y)), ('l2_loss', (x,)), ('huber_loss', (x, y)), ('sigmoid_binary_cross_entropy', (x, w)), ('softmax_cross_entropy', (x, w)),
                   ('cosine_similarity', (x, y)), ('cosine_distance', (x, y))):
    twice(ctx, 'losses', '%s/%d' % (nm, len(args)), lambda *a, nm=nm: ctx.call(nm, *a), *args)
  al = Arr(V.oarr(T.var('al', 'unit')), 'float32', True, True)
  twice(ctx, 'losses', 'smooth_labels', lambda a, b: ctx.call('smooth_labels', a, b), w, al)
  twice(ctx, 'losses', 'huber_loss with traced delta', lambda a, b, d: ctx.call('huber_loss', a, b, d), x, y, al)


def helpers(ctx):
  t = ctx.tree('t', TREE)
  o = ctx.tree('o', TREE)
  st, n = ctx.arr('st', (), 'unit'), ctx.arr('n', (), 'count', 'int32')
  k = ctx.arr('k', (), ('ints', 1, 6), 'int32')
  twice(ctx, 'helpers', 'global_norm', lambda a: ctx.call('global_norm', a), t)
  twice(ctx, 'helpers', 'apply_updates', lambda a, b: ctx.call('apply_updates', a, b), t, o)
  twice(ctx, 'helpers', 'incremental_update', lambda a, b, s: ctx.call('incremental_update', a, b, s), t, o, st)
  twice(ctx, 'helpers', 'periodic_update', lambda a, b, s, q: ctx.call('periodic_update', a, b, s, q), t, o, n, k)
  x = ctx.arr('x', (3,))
  twice(ctx, 'helpers', 'safe_norm', lambda a, m: ctx.call('_src.numerics.safe_norm', a, m), x, st)
  twice(ctx, 'helpers', 'safe_int32_increment', lambda a: ctx.call('_src.numerics.safe_int32_increment', a), n)
  m = ctx.arr('m', (2, 2))
  twice(ctx, 'helpers', 'power_iteration', lambda a: ctx.call('power_iteration', a, 3), m)
  twice(ctx, 'helpers', 'matrix_inverse_pth_root', lambda a: ctx.call('matrix_inverse_pth_root', a, 4, 1), m, same=False)
  one = ctx.arr('m1', (1, 1), 'pos')
  twice(ctx, 'helpers', 'matrix_inverse_pth_root of size 1', lambda a: ctx.call('matrix_inverse_pth_root', a, 3, 1), one, same=False)
  d = ctx.arr('d', (2, 2, 2))
  twice(ctx, 'helpers', 'set_diags', lambda a, b: ctx.call('_src.utils.set_diags', a, b), d, ctx.arr('nd', (2, 2)))
  twice(ctx, 'helpers', 'tile_second_to_last_dim', lambda a: ctx.call('_src.utils.tile_second_to_last_dim', a), m)


def curvature(ctx):
  """Second order helpers, estimators and control variates inside compilation."""
  I = ctx.I
  P = {'w': ctx.arr('w', (2,)), 'b': ctx.arr('b')}
  X, Y = ctx.arr('X', (2, 2)), ctx.arr('Y', (2,))

  def loss(p, x, y):
    B = lambda o, a, b: _bin(I, o, a, b)
    jn = I.load('jax.numpy')
    z = B('Add', I.call(I.getattr(jn, 'dot'), [x, p['w']]), p['b'])
    return I.call(I.getattr(jn, 'sum'), [B('Pow', B('Sub', I.call(I.getattr(jn, 'tanh'), [z]), y), 2)])
  lf = ctx.prim(loss, 'loss')
  v = ctx.arr('v', (3,))
  twice(ctx, 'second order', 'hvp', lambda vv, p, x, y: ctx.call('hvp', lf, vv, p, x, y), v, P, X, Y)
  twice(ctx, 'second order', 'hessian_diag', lambda p, x, y: ctx.call('hessian_diag', lf, p, x, y), P, X, Y)
  twice(ctx, 'second order', 'fisher_diag', lambda p, x, y: ctx.call('fisher_diag', lf, p, x, y), P, X, Y)
  mean, ls = ctx.arr('mean', (2,)), ctx.arr('ls', (2,))
  key = ctx.arr('key', (2,), 'key', 'uint32')
  fn = ctx.prim(lambda x: I.call(I.getattr(I.load('jax.numpy'), 'sum'), [_bin(I, 'Pow', x, 3)]), 'function')
  mk = ctx.f('multi_normal')
  for nm in ('score_function_jacobians', 'pathwise_jacobians', 'measure_valued_jacobians'):
    twice(ctx, 'estimators', nm, lambda a, b, k, nm=nm: ctx.call(nm, fn, [a, b], mk, k, 2), mean, ls, key)
  del Y


def _bin(I, op, a, b):
  from .. import jaxmodel as J
  return J.arr_binop(I, op, V.as_arr(a), V.as_arr(b))


def coverage(ctx):
  """Every numeric-hyperparameter factory above still has these parameters."""
  for nm, hs in FACTORIES.items():
    f = ctx.f(nm)
    args = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs] if hasattr(f, 'node') else []
    ctx.true('coverage', nm, set(hs.split()) <= set(args), '%s no longer takes %s' % (nm, sorted(set(hs.split()) - set(args))))


def check(ctx):
  for e in R.everything(): ctx.section(e.name, entry, e)
  for nm in FACTORIES:
    ctx.section('hyper ' + nm, hyper, nm, {})
    if nm in ('trace', 'sgd', 'rmsprop', 'dpsgd'): ctx.section('hyper nesterov ' + nm, hyper, nm, {'nesterov': True})
    if nm == 'rmsprop': ctx.section('hyper centered', hyper, nm, {'centered': True})
    if nm == 'ema': ctx.section('hyper ema', hyper, nm, {'debias': False})
  for nm, a in SCHEDULES: ctx.section('%s%s' % (nm, a), schedules, nm, a)
  ctx.section('joined', joined)
  ctx.section('losses', losses)
  ctx.section('helpers', helpers)
  ctx.section('curvature', curvature)
  ctx.section('coverage', coverage)

