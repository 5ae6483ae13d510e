"""Clipping transformations as value graphs over trees of every rank 0-4: decided equal to the
documented per-entry, common-factor and unit-wise clipping, for symbolic gradients, params and limits,
with the bound, the untouched-when-conforming and the zero-gradient obligations stated separately."""
import numpy as np

from .. import terms as T, values as V
from ..spec import L, LONG, MIXED, ref, sqrt, total, TREE, WIDE
from ..values import Arr
from .C32 import m1, RANKS

RULE = """value-graph equality with the documented clipping equations; bounds as inequalities over the output graph"""
FLOOR = 60

TREES = (('ranks', RANKS), ('nested', TREE), ('bare', L(2, 3)), ('scalar', L()), ('none', {'a': None, 'b': L(2)}), ('mixed', MIXED), ('wide', WIDE), ('long', LONG))


def gnorm(*trees):
  r = T.ZERO
  for t in trees:
    for l in V.tree_leaves(t):
      for x in l.a.reshape(-1): r = T.add(r, T.mul(x, x))
  return T.unary('sqrt', r)


def clip(ctx, label, tree):
  g, p = ctx.tree('g', tree), ctx.tree('p', tree)
  v = ctx.val(256)
  for how, d, D in (('symbolic', ctx.h('d', ('range', 0.2, 2.5)), None), ('array', ctx.arr('d', (), ('range', 0.2, 2.5), weak=True), None), ('1.0', 1.0, T.ONE), ('int 1', 1, T.ONE)):
    D = D if D is not None else d.item()
    for kw in (False, True):
      tx = ctx.call('clip', max_delta=d) if kw else ctx.call('clip', d)
      s = ctx.init(tx, p)
      for given in ((), (p,)):
        u, s1 = ctx.update(tx, g, s, *given)
        lab = '%s, limit %s%s%s' % (label, how, ' by keyword' if kw else '', ', params given' if given else '')
        ctx.eq('clip', lab, u, m1(lambda a: V.vec(lambda x: T.minimum(T.maximum(x, T.neg(D)), D), a), g), v, dtypes=True)
        ctx.eq('clip', lab + ': state', s1, s)
    inf = ctx.tree('g', tree, dom=('set', (float('inf'), float('-inf'), 0.0, 9.0)))
    u, _ = ctx.update(tx, inf, s)
    for k, l in enumerate(V.tree_leaves(u)):
      ctx.holds('clip', '%s, limit %s: infinite entries are bounded, leaf %d' % (label, how, k), V.vec(lambda x: T.land(T.le(x, D), T.le(T.neg(D), x)), l))


def glob(ctx, label, tree):
  g, p = ctx.tree('g', tree), ctx.tree('p', tree)
  n = sum(l.a.size for l in V.tree_leaves(g))
  lim = ('range', 0.3 * np.sqrt(n), 3.5 * np.sqrt(n))
  v = ctx.val(256)
  N = gnorm(g)
  for how, m in (('symbolic', ctx.h('m', lim)), ('array', ctx.arr('m', (), lim, weak=True))):
    M = m.item()
    for kw in (False, True):
      tx = ctx.call('clip_by_global_norm', max_norm=m) if kw else ctx.call('clip_by_global_norm', m)
      s = ctx.init(tx, p)
      for given in ((), (p,)):
        u, s1 = ctx.update(tx, g, s, *given)
        lab = '%s, limit %s%s%s' % (label, how, ' by keyword' if kw else '', ', params given' if given else '')
        ctx.eq('global_norm', lab, u, m1(lambda a: V.vec(lambda x: T.ite(T.lt(N, M), x, T.mul(T.div(x, N), M)), a), g), v, dtypes=True)
        ctx.eq('global_norm', lab + ': state', s1, s)
    ctx.holds('global_norm', '%s, limit %s: norm after clipping' % (label, how), T.le(gnorm(u), T.mul(M, T.const(1 + 1e-9))), v)
    z = V.tree_map(lambda l: Arr(V.vec(lambda t: T.ZERO, l), l.dtype, traced=True), g)
    u, _ = ctx.update(tx, z, s)
    ctx.eq('global_norm', '%s, limit %s: zero gradients' % (label, how), u, z, v, dtypes=True, ieee=True)


def units(a):
  """Index groups of one tensor sharing a norm."""
  sq = [d for d in a.shape if d != 1]
  if len(sq) <= 1: return None
  if a.ndim in (2, 3): return (0,)
  if a.ndim == 4: return (0, 1, 2)
  raise AssertionError


def unorm(a):
  """Object array of the norm of every entry's unit."""
  ax = units(a)
  out = np.empty(a.shape, dtype=object)
  for i in np.ndindex(*a.shape):
    sl = tuple(slice(None) if ax is None or k in ax else i[k] for k in range(a.ndim))
    out[i] = T.unary('sqrt', total(_o(a[sl]) ** 2))
  return out


def _o(x):
  if isinstance(x, np.ndarray): return x
  return V.oarr(x)


ARANKS = {'s': L(), 'v': L(3), 'm': (L(2, 3), L(3, 1), L(1, 3), L(1, 1)), 'k': [L(2, 2, 2), L(1, 2, 1), L(2, 1, 3), L(1, 2, 2), L(2, 2, 1), L(3, 1, 1)], 'c': [L(2, 1, 2, 2), L(1, 2, 2, 1), L(2, 1, 1, 2), L(3, 1, 1, 1)], 'd': L(1, 1, 2, 3), 'o': L(1), 'e': L(1, 1, 1, 2)}
ATREES = (('ranks', ARANKS), ('nested', TREE), ('bare', L(2, 3)), ('scalar', L()), ('none', {'a': None, 'b': L(2)}), ('wide', WIDE), ('long', LONG))


def agc(ctx, label, tree):
  g, p = ctx.tree('g', tree), ctx.tree('p', tree)
  v = ctx.val(256)
  c, e = ctx.h('clipping', ('range', 0.2, 2.0)), ctx.h('eps', ('range', 0.05, 1.5))
  for how, tx, E in (('positional', ctx.call('adaptive_grad_clip', c, e), e.item()), ('keyword', ctx.call('adaptive_grad_clip', clipping=c, eps=e), e.item()),
                     ('default eps', ctx.call('adaptive_grad_clip', c), T.const(1e-3))):
    s = ctx.init(tx, p)
    C = c.item()
    def f(a, b):
      gn, pn = unorm(a), unorm(b)
      return V.vec(lambda x, n, q: T.ite(T.lt(n, T.mul(C, T.maximum(q, E))), x, T.mul(x, T.div(T.mul(C, T.maximum(q, E)), n))), a, gn, pn)
    u, s1 = ctx.update(tx, g, s, p)
    lab = '%s, %s' % (label, how)
    ctx.eq('adaptive', lab, u, m1(f, g, p), v)
    ctx.eq('adaptive', lab + ': state', s1, s)
    for k, (x, b) in enumerate(zip(V.tree_leaves(u), V.tree_leaves(p))):
      ctx.holds('adaptive', '%s: unit-wise bound, leaf %d' % (lab, k),
                V.vec(lambda n, q: T.le(n, T.mul(T.mul(C, T.maximum(q, E)), T.const(1 + 1e-9))), unorm(x.a), unorm(b.a)), v)
    z = V.tree_map(lambda l: Arr(V.vec(lambda t: T.ZERO, l), l.dtype, traced=True), g)
    u, _ = ctx.update(tx, z, s, p)
    ctx.eq('adaptive', lab + ': zero gradients', u, z, v, ieee=True)
    zp = V.tree_map(lambda l: Arr(V.vec(lambda t: T.ZERO, l), l.dtype, traced=True), p)
    u, _ = ctx.update(tx, g, s, zp)
    ctx.eq('adaptive', lab + ': zero params use the floor', u, m1(f, g, zp), v, ieee=True)
  # eps=0.0 is a value, not "absent": without a floor, zero parameters take no step at all.
  tx = ctx.call('adaptive_grad_clip', c, 0.0)
  g, p = ctx.tree('gn', tree, dom=('range', 0.4, 2.0)), ctx.tree('pn', tree, dom=('range', 0.4, 2.0))
  s = ctx.init(tx, p)
  E, C = T.ZERO, c.item()
  u, _ = ctx.update(tx, g, s, p)
  ctx.eq('adaptive', label + ', no floor', u, m1(f, g, p), v)
  zp = V.tree_map(lambda l: Arr(V.vec(lambda t: T.ZERO, l), l.dtype, traced=True), p)
  u, _ = ctx.update(tx, g, s, zp)
  ctx.eq('adaptive', label + ', no floor: zero params', u, zp, v, ieee=True)
  # A unit with no gradient takes no step, also when its bound is zero.
  zg = V.tree_map(lambda l: Arr(V.vec(lambda t: T.ZERO, l), l.dtype, traced=True), g)
  for how, t, q in (('no floor, zero params', tx, zp), ('limit 0', ctx.call('adaptive_grad_clip', 0.0), p), ('limit 0, zero params', ctx.call('adaptive_grad_clip', 0.0), zp)):
    u, _ = ctx.update(t, zg, ctx.init(t, p), q)
    ctx.eq('adaptive', '%s, %s: zero gradients' % (label, how), u, zg, v, ieee=True)


def reject(ctx):
  tx = ctx.call('adaptive_grad_clip', 0.1)
  p = ctx.tree('p')
  s = ctx.init(tx, p)
  ctx.expect_raise('adaptive', 'params None', lambda: ctx.update(tx, p, s, None))
  q = ctx.arr('q', (2, 1, 2, 1, 2))
  ctx.expect_raise('adaptive', 'rank 5', lambda: ctx.update(tx, {'a': q}, s, {'a': q}))


def check(ctx):
  more = tuple(ctx.directed('clipping.py', 'linear_algebra.py').items())
  for nm, tree in TREES + more:
    ctx.section('clip ' + nm, clip, nm, tree)
    ctx.section('global ' + nm, glob, nm, tree)
  for nm, tree in ATREES + more: ctx.section('agc ' + nm, agc, nm, tree)
  ctx.section('reject', reject)


_ = ref, sqrt
