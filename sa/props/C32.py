"""Factor of each simple rescaling transformation, as value graphs over trees of every rank 0-4:
scale, scale_by_schedule, add_decayed_weights, scale_by_trust_ratio, centralize (and identity)
are decided equal to the documented factor for symbolic gradients, params and hyperparameters."""
import numpy as np

from .. import terms as T, values as V
from ..spec import L, ref, sqrt, total, TREE
from ..stepspec import clamp_inc
from ..values import ANT, Arr

RULE = """value-graph equality with the documented factor"""
FLOOR = 60

RANKS = {'s': L(), 'v': L(3), 'm': (L(2, 3), L(3, 1)), 'k': [L(2, 2, 2), L(1, 2, 1)], 'c': L(2, 1, 2, 2), 'o': L(1), 'r': L(1, 3)}
FIVE = [L(2, 1, 2, 1, 2)]
TREES = (('ranks', RANKS), ('bare', L(2, 3)), ('scalar', L()), ('nested', TREE), ('rank5', FIVE), ('empty', {}), ('none', {'a': None, 'b': L(2)}))


def m1(f, *trees): return V.tree_map(lambda *ls: Arr(f(*[l.a for l in ls]), ls[0].dtype), *trees)


def both(ctx, tx, g, p, why):
  """update with and without params agree in what is stated for each."""
  out = []
  for label, a in (('', ()), (' (params given)', (p,))):
    s = ctx.init(tx, p)
    out.append((why + label, ctx.update(tx, g, s, *a)))
  return out


def c_scale(ctx, label, tree):
  f = ctx.h('f', 'real')
  g, p = ctx.tree('g', tree), ctx.tree('p', tree)
  for how in ('positional', 'keyword'):
    tx = ctx.call('scale', f) if how == 'positional' else ctx.call('scale', step_size=f)
    for lab, (u, s) in both(ctx, tx, g, p, '%s, %s' % (label, how)):
      ctx.eq('scale', lab, u, m1(lambda a: a * f.item(), g))
      s0 = ctx.init(tx, p)
      ctx.eq('scale', lab + ': state', s, s0)
      # several steps: no memory
      u2, _ = ctx.update(tx, p, s)
      ctx.eq('scale', lab + ': second step', u2, m1(lambda a: a * f.item(), p))
  tx = ctx.call('identity')
  for lab, (u, s) in both(ctx, tx, g, p, label): ctx.eq('identity', lab, u, g, ieee=True)


def c_schedule(ctx, label, tree):
  tx = ctx.call('scale_by_schedule', ctx.prim(lambda c: Arr(V.oarr(T.app('sched', [V.step_term(c)])), 'float32', traced=True), 'schedule'))
  g, p = ctx.tree('g', tree), ctx.tree('p', tree)
  s0 = ctx.init(tx, p)
  s = s0
  for k in range(4):
    u, s = ctx.update(tx, g, s, *([p] if k % 2 else []))
    ctx.eq('scale_by_schedule', '%s: step %d' % (label, k + 1), u, m1(lambda a: a * T.app('sched', [T.const(k)]), g))
  if isinstance(s0, ANT) and s0.fields == ('count',) or getattr(s0, 'fields', None) == ['count']:
    c = ctx.arr('c', (), 'count', 'int32')
    u, s = ctx.update(tx, g, ANT(s0.cls, [c]))
    ctx.eq('scale_by_schedule', '%s: any count' % label, u, m1(lambda a: a * T.app('sched', [c.item()]), g))
    ctx.eq('scale_by_schedule', '%s: next count' % label, s.get('count'), ref(clamp_inc(c.item()), 'int32'))
    big = T.const(T.INT32_MAX)
    u, s = ctx.update(tx, g, ANT(s0.cls, [Arr(V.oarr(big), 'int32', traced=True)]))
    ctx.eq('scale_by_schedule', '%s: last count' % label, u, m1(lambda a: a * T.app('sched', [big]), g))
    ctx.eq('scale_by_schedule', '%s: saturated count' % label, s.get('count'), ref(big, 'int32'))


def c_schedule_kinds(ctx):
  """A schedule returning a Python float or a concrete array works as a factor too."""
  g, p = ctx.tree('g'), ctx.tree('p')
  f = ctx.h('lr', 'real')
  for lab, fn in (('python float', lambda c: f), ('0-d array', lambda c: ctx.arr('lr', (), 'real'))):
    tx = ctx.call('scale_by_schedule', ctx.prim(lambda c, fn=fn: (V.step_term(c), fn(c))[1], 'schedule'))
    u, _ = ctx.update(tx, g, ctx.init(tx, p))
    ctx.eq('scale_by_schedule', 'schedule returning a %s' % lab, u, m1(lambda a: a * T.var('lr'), g))
  tx = ctx.call('scale_by_schedule', ctx.call('constant_schedule', f))
  u, _ = ctx.update(tx, g, ctx.init(tx, p))
  ctx.eq('scale_by_schedule', 'constant_schedule', u, m1(lambda a: a * T.var('lr'), g))


def c_decay(ctx, label, tree):
  w = ctx.h('wd', 'real')
  g, p = ctx.tree('g', tree), ctx.tree('p', tree)
  for nm in ('add_decayed_weights', 'additive_weight_decay'):
    for how, tx, k in (('positional', ctx.call(nm, w), w.item()), ('keyword', ctx.call(nm, weight_decay=w), w.item()), ('default', ctx.call(nm), T.ZERO)):
      s = ctx.init(tx, p)
      for step in (1, 2):
        u, s = ctx.update(tx, g, s, p)
        ctx.eq(nm, '%s, %s, step %d' % (label, how, step), u, m1(lambda a, b: a + k * b, g, p))
      ctx.eq(nm, '%s, %s: state' % (label, how), s, ctx.init(tx, p))


def c_trust(ctx, label, tree):
  mn = ctx.h('min_norm', ('range', 0.2, 3.0))
  g, p = ctx.tree('g', tree), ctx.tree('p', tree)
  nrm = lambda a: sqrt(total(a * a))
  for how, tx, m in (('positional', ctx.call('scale_by_trust_ratio', mn), mn.item()), ('keyword', ctx.call('scale_by_trust_ratio', min_norm=mn), mn.item()),
                     ('default', ctx.call('scale_by_trust_ratio'), T.ZERO)):
    s = ctx.init(tx, p)
    f = lambda a, b: a * (T.maximum(nrm(b), m) / T.maximum(nrm(a), m))
    for step in (1, 2):
      u, s = ctx.update(tx, g, s, p)
      ctx.eq('trust_ratio', '%s, %s, step %d' % (label, how, step), u, m1(f, g, p), ctx.val(256))
    # a zero norm: factor one (only without a floor), gradients unchanged and finite
    for z, gg, pp in (('zero params', g, m1(lambda a: a * 0, p)), ('zero gradients', m1(lambda a: a * 0, g), p), ('both zero', m1(lambda a: a * 0, g), m1(lambda a: a * 0, p))):
      if not V.tree_leaves(g): continue
      u, _ = ctx.update(tx, gg, s, pp)
      if how == 'default':
        ctx.eq('trust_ratio', '%s, %s, %s: factor one' % (label, how, z), u, gg, ieee=True)
      else:
        ctx.eq('trust_ratio', '%s, %s, %s: floored' % (label, how, z), u, m1(f, gg, pp), ieee=True)


def c_central(ctx, label, tree):
  g, p = ctx.tree('g', tree), ctx.tree('p', tree)
  tx = ctx.call('centralize')
  def f(a):
    if a.ndim <= 1: return a
    n = int(np.prod(a.shape[1:]))
    out = np.empty(a.shape, dtype=object)
    for i in range(a.shape[0]):
      mean = total(a[i]) / T.const(float(n))
      for j in np.ndindex(*a.shape[1:]): out[(i,) + j] = a[(i,) + j] - mean
    return out
  for lab, (u, s) in both(ctx, tx, g, p, label):
    ctx.eq('centralize', lab, u, m1(f, g))
    ctx.eq('centralize', lab + ': state', s, ctx.init(tx, p))


def check(ctx):
  for nm, tree in tuple(TREES) + tuple(ctx.directed('transform.py').items()):
    for f in (c_scale, c_schedule, c_decay, c_trust, c_central):
      ctx.section('%s %s' % (f.__name__, nm), f, nm, tree)
  ctx.section('schedule kinds', c_schedule_kinds)
