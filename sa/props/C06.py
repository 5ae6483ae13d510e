"""Recurrence equations extracted by abstract interpretation (value graphs) of trace, ema,
scale_by_rss, scale_by_rms and scale_by_stddev are decided equal to the documented recurrences,
for symbolic hyperparameters, gradients and an arbitrary (havocked) state - so by induction for
every history - plus the init equation and short trajectories from init."""
from ..spec import sqrt, where, vf
from .. import spec, terms as T, values as V
from ..values import Arr
from ..stepspec import HALF, Rec, check_rec, SMALL

RULE = """value-graph equality of init and one-step equations with the documented recurrence"""
FLOOR = 60


def mom(d, g, m, order=1):
  return (1 - d) * g ** order + d * m


def c_trace(ctx, nesterov, acc):
  d = ctx.h('decay')
  D = d.item()
  kw = {} if acc is None else {'accumulator_dtype': acc}
  tx = ctx.call('trace', d, nesterov, **kw)

  def step(g, s, p):
    t = g + D * s['trace']
    return (g + D * t if nesterov else t), {'trace': t}
  check_rec(ctx, 'trace', 'trace(nesterov=%s%s)' % (nesterov, '' if acc is None else ', accumulator_dtype'), tx,
            Rec({'trace': ('tree', 'real')}, lambda p: {'trace': 0.0 * T.ONE}, step))


def narrow_acc(ctx, which, opt):
  """A narrower accumulator: only what is stored is rounded, not what is returned."""
  V.ROUNDING[0] = True
  d = ctx.h('decay')
  D = d.item()
  bf = ctx.I.getattr(ctx.I.load('jax.numpy'), 'bfloat16')
  tx = ctx.call(which, d, opt, bf)
  g, s = ctx.tree('g', SMALL), ctx.init(tx, ctx.tree('p', SMALL))
  acc = V.tree_map(lambda l: Arr(l.a, 'bfloat16'), ctx.tree('t', SMALL))
  s = ctx.I.call(ctx.I.getattr(s, '_replace'), [], {which: acc})
  if which == 'ema': s = ctx.I.call(ctx.I.getattr(s, '_replace'), [], {'count': V.const_arr(3, 'int32')})
  u, s2 = ctx.update(tx, g, s)
  if which == 'trace':
    new = V.tree_map(lambda a, b: Arr(a.a + D * b.a, 'float32'), g, acc)
    out = V.tree_map(lambda a, b: Arr(a.a + D * b.a, 'float32'), g, new) if opt else new
  else:
    new = V.tree_map(lambda a, b: Arr((1 - D) * a.a + D * b.a, 'float32'), g, acc)
    out = V.tree_map(lambda a: Arr(a.a / (1 - D ** 4), 'float32'), new) if opt else new
  lab = '%s(%s) with a bfloat16 accumulator and float32 gradients' % (which, opt)
  ctx.eq(which, lab + ': updates are not rounded', u, out, dtypes=True)
  ctx.eq(which, lab + ': what is stored is rounded once', ctx.I.getattr(s2, which), V.tree_map(lambda a: V.cast(a, 'bfloat16'), new), dtypes=True)


def c_trace_kw(ctx):
  d = ctx.h('decay')
  D = d.item()
  tx = ctx.call('trace', decay=d)
  check_rec(ctx, 'trace', 'trace() defaults', tx,
            Rec({'trace': ('tree', 'real')}, lambda p: {'trace': T.ZERO}, lambda g, s, p: (g + D * s['trace'],) * 1 + ({'trace': g + D * s['trace']},)),
            tree=SMALL)


def c_ema(ctx, debias, acc):
  d = ctx.h('decay')
  D = d.item()
  kw = {} if acc is None else {'accumulator_dtype': acc}
  tx = ctx.call('ema', d, debias, **kw)

  def step(g, s, p):
    m = mom(D, g, s['ema'])
    c = T.minimum(s['count'] + 1, T.const(T.INT32_MAX))
    return (m / (1 - D ** c) if debias else m), {'ema': m}
  check_rec(ctx, 'ema', 'ema(debias=%s%s)' % (debias, '' if acc is None else ', accumulator_dtype'), tx,
            Rec({'count': 'count', 'ema': ('tree', 'real')}, lambda p: {'ema': T.ZERO}, step))
  check_rec(ctx, 'ema', 'ema(debias=%s%s), half-precision gradients' % (debias, '' if acc is None else ', accumulator_dtype'), tx,
            Rec({'count': 'count', 'ema': ('tree', 'real')}, lambda p: {'ema': T.ZERO}, step), tree=HALF)


def c_rss(ctx):
  a, e = ctx.h('acc0', 'nonneg0'), ctx.h('eps', 'small')
  tx = ctx.call('scale_by_rss', a, e)

  def step(g, s, p):
    t = g ** 2 + s['sum_of_squares']
    return where(vf(lambda x: T.gt(x, T.ZERO), t), g / sqrt(t + e.item()), T.ZERO), {'sum_of_squares': t}
  rec = Rec({'sum_of_squares': ('tree', 'nonneg0')}, lambda p: {'sum_of_squares': a.item()}, step)
  check_rec(ctx, 'rss', 'scale_by_rss', tx, rec)
  # exact zeros: gradient and accumulator both zero
  tx = ctx.call('scale_by_rss', initial_accumulator_value=0.0, eps=0.0)
  z = ctx.tree('g', SMALL, dom=('intset', [0, 0, 1]))
  s0 = ctx.init(tx, ctx.tree('p', SMALL))
  r = ctx.update(tx, z, s0)
  ctx.finite('rss', 'scale_by_rss with zero gradients and no eps', r[0])


def c_rms(ctx):
  d, e, i = ctx.h('decay'), ctx.h('eps', 'small'), ctx.h('init', 'nonneg0')
  tx = ctx.call('scale_by_rms', d, e, i)

  def step(g, s, p):
    n = mom(d.item(), g, s['nu'], 2)
    return g / sqrt(n + e.item()), {'nu': n}
  check_rec(ctx, 'rms', 'scale_by_rms', tx, Rec({'nu': ('tree', 'nonneg0')}, lambda p: {'nu': i.item()}, step))


def c_std(ctx):
  d, e, i = ctx.h('decay'), ctx.h('eps', 'small'), ctx.h('init', 'nonneg0')
  tx = ctx.call('scale_by_stddev', d, e, i)

  def step(g, s, p):
    m = mom(d.item(), g, s['mu'])
    n = mom(d.item(), g, s['nu'], 2)
    return g / sqrt(n - m ** 2 + e.item()), {'mu': m, 'nu': n}
  # nu - mu^2 is non-negative on reachable states: sample nu large enough
  check_rec(ctx, 'stddev', 'scale_by_stddev', tx,
            Rec({'mu': ('tree', ('range', -0.7, 0.7)), 'nu': ('tree', ('range', 0.5, 3.0))}, lambda p: {'mu': T.ZERO, 'nu': i.item()}, step))


def check(ctx):
  import itertools
  for nes, acc in itertools.product((False, True), (None, 'f')):
    ctx.section('trace %s %s' % (nes, acc), lambda c, n=nes, a=acc: c_trace(c, n, a and c.I.getattr(c.I.load('jax.numpy'), 'float32')))
  for w in ('trace', 'ema'):
    for o in (False, True): ctx.section('narrow %s %s' % (w, o), narrow_acc, w, o)
  ctx.section('trace kw', c_trace_kw)
  for deb, acc in itertools.product((False, True), (None, 'f')):
    ctx.section('ema %s %s' % (deb, acc), lambda c, n=deb, a=acc: c_ema(c, n, a and c.I.getattr(c.I.load('jax.numpy'), 'float32')))
  ctx.section('rss', c_rss)
  ctx.section('rms', c_rms)
  ctx.section('stddev', c_std)


_ = spec
