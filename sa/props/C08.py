"""SM3: the value graphs extracted from scale_by_sm3 are decided equal to the cover-set
recurrence (min over axis accumulators, sum or exponential average with the squared gradient,
per-axis maxima stored, inverse root scaling, momentum) for ranks 0 to 4, any state, any step."""
import functools
import numpy as np
from .. import terms as T, values as V
from ..spec import L, ref, sqrt, where, vf
from ..values import ANT

RULE = """value-graph equality with the SM3 cover recurrence, one step from any state and trajectories"""
FLOOR = 30
TREE = {'v': L(3), 'm': L(2, 3), 't': (L(2, 1, 2),)}
RANKS = {'s': L(), 'v': L(2), 'm': L(2, 2), 't': [L(2, 1, 2)], 'q': L(1, 2, 1, 2)}


def ref_step(g, acc, mom, b1, b2, e, avg):
  """One leaf: g ndarray, acc list of per-axis vectors (or [scalar])."""
  nd = g.ndim
  if nd == 0: est = acc[0].reshape(())
  else:
    ex = [a.reshape([-1 if k == i else 1 for k in range(nd)]) for i, a in enumerate(acc)]
    est = functools.reduce(lambda x, y: vf(T.minimum, x, y), ex)
    est = np.broadcast_to(est, g.shape)
  nu = (1 - b2) * g ** 2 + b2 * est if avg else g ** 2 + est
  nu = vf(lambda x: x, nu)
  sc = where(vf(lambda x: T.gt(x, T.ZERO), nu), 1 / sqrt(nu + e), T.ZERO)
  m = (1 - b1) * (g * sc) + b1 * mom
  if nd == 0: na = [nu.reshape(1)]
  else:
    na = []
    for i in range(nd):
      r = np.moveaxis(nu, i, 0).reshape(g.shape[i], -1)
      o = np.empty((g.shape[i],), dtype=object)
      for k in range(g.shape[i]): o[k] = functools.reduce(T.maximum, list(r[k]))
      na.append(o)
  return vf(lambda x: x, m), na


def trajectory(ctx, avg, tree, label):
  b1, e = ctx.h('b1'), ctx.h('eps', 'small')
  b2 = ctx.h('b2', ('range', 0.3, 0.95)) if avg else 1.0
  tx = ctx.call('scale_by_sm3', b1, b2, e)
  B1, E = b1.item(), e.item()
  B2 = b2.item() if avg else None
  p = ctx.tree('p', tree)
  s = ctx.init(tx, p)
  leaves, td = V.tree_flatten(p)
  acc = [[vf(lambda x: T.ZERO, np.empty(n, dtype=object) + T.ZERO if 0 else np.array([T.ZERO] * n, dtype=object)) for n in (l.shape or (1,))] for l in leaves]
  mom = [np.full(l.shape, T.ZERO, dtype=object) for l in leaves]
  for k in range(3 if ctx.thorough else 2):
    g = ctx.tree('g%d' % k, tree, dom='real0')
    u, s = ctx.update(tx, g, s)
    exp = []
    for i, gl in enumerate(V.tree_leaves(g)):
      mom[i], acc[i] = ref_step(gl.a, acc[i], mom[i], B1, B2, E, avg)
      exp.append(ref(mom[i]))
    ctx.eq('sm3', '%s: update of step %d from init' % (label, k + 1), u, V.tree_unflatten(td, exp))


def havoc(ctx, avg):
  b1, e = ctx.h('b1'), ctx.h('eps', 'small')
  b2 = ctx.h('b2', ('range', 0.3, 0.95)) if avg else 1.0
  tx = ctx.call('scale_by_sm3', b1=b1, b2=b2, eps=e)
  B1, E = b1.item(), e.item()
  B2 = b2.item() if avg else None
  p = ctx.tree('p', TREE)
  s0 = ctx.init(tx, p)
  label = 'scale_by_sm3(b2%s1)' % ('!=' if avg else '=')
  leaves, td = V.tree_flatten(p)
  if not (isinstance(s0, ANT) and set(s0.fields) == {'mu', 'nu'}):
    ctx.notes.append('state fields renamed; trajectories only')
    return
  exp0 = V.tree_unflatten(td, [[ref(np.array([T.ZERO] * n, dtype=object)) for n in l.shape] for l in leaves])
  if not ctx.eq('sm3', label + ': initial accumulators', s0.get('mu'), exp0): return
  ctx.eq('sm3', label + ': initial momentum', s0.get('nu'), V.tree_map(lambda l: ref(np.full(l.shape, T.ZERO, dtype=object)), p))
  acc = [[ctx.arr('a%d_%d' % (i, k), (n,), 'nonneg0') for k, n in enumerate(l.shape)] for i, l in enumerate(leaves)]
  mom = [ctx.arr('m%d' % i, l.shape, 'real') for i, l in enumerate(leaves)]
  st = {'mu': V.tree_unflatten(td, acc), 'nu': V.tree_unflatten(td, mom)}
  g = ctx.tree('g', TREE, dom='real0')
  u, s1 = ctx.update(tx, g, ANT(s0.cls, [st[f] for f in s0.fields]))
  eu, ea = [], []
  for i, gl in enumerate(V.tree_leaves(g)):
    m, a = ref_step(gl.a, [x.a for x in acc[i]], mom[i].a, B1, B2, E, avg)
    eu.append(ref(m))
    ea.append([ref(x) for x in a])
  ctx.eq('sm3', label + ': update from any state', u, V.tree_unflatten(td, eu))
  ctx.eq('sm3', label + ': next momentum from any state', s1.get('nu'), V.tree_unflatten(td, eu))
  ctx.eq('sm3', label + ': next accumulators from any state', s1.get('mu'), V.tree_unflatten(td, ea))


def zero(ctx):
  tx = ctx.call('scale_by_sm3', eps=0.0)
  t = {'m': L(2, 2), 'v': L(2)}
  s = ctx.init(tx, ctx.tree('p', t))
  u, _ = ctx.update(tx, ctx.tree('g', t, dom=('intset', (0, 0, 1))), s)
  ctx.finite('sm3', 'zero gradients without eps', u)


def defaults(ctx):
  tx = ctx.call('scale_by_sm3')
  t = {'m': L(2, 2), 'v': L(2)}
  p = ctx.tree('p', t)
  s = ctx.init(tx, p)
  g = ctx.tree('g', t)
  u, _ = ctx.update(tx, g, s)
  exp = V.tree_map(lambda x: ref(ref_step(x.a, [np.array([T.ZERO] * n, dtype=object) for n in x.shape],
                                          np.full(x.shape, T.ZERO, dtype=object), T.const(.9), None, T.const(1e-8), False)[0]), g)
  ctx.eq('sm3', 'default hyperparameters', u, exp)


def check(ctx):
  for avg in (False, True):
    ctx.section('any state avg=%s' % avg, havoc, avg)
    for n, l in RANKS.items():
      ctx.section('rank %s avg=%s' % (n, avg), trajectory, avg, {'x': l}, 'rank-%d leaf, b2%s1' % (len(V.tree_leaves([0])) * 0 + 'svmtq'.index(n), '!=' if avg else '='))
  ctx.section('mixed tree', trajectory, False, RANKS, 'mixed-rank tree')
  ctx.section('bare leaf', trajectory, False, L(2, 2), 'bare array')
  ctx.section('zero', zero)
  ctx.section('defaults', defaults)
