"""keep_params_nonnegative and zero_nans: value graphs with IEEE special values decided equal to the
documented per-entry case distinction, and the invariant 'params stay non-negative' stated on
apply_updates(params, update)."""
import numpy as np

from .. import terms as T, values as V
from ..spec import L, ref, TREE
from ..values import ANT, Arr
from .C32 import m1, RANKS

RULE = """value-graph equality, IEEE special values included, and inductive invariant of the applied step"""
FLOOR = 40

NAN, INF = float('nan'), float('inf')
TREES = (('nested', TREE), ('ranks', RANKS), ('bare', L(3)), ('scalar', L()), ('none', {'a': None, 'b': L(2)}), ('half', {'w': L(2, dtype='float16'), 'b': L(dtype='bfloat16')}), ('empty', []))


def nonneg(ctx, label, tree):
  tx = ctx.call('keep_params_nonnegative')
  p = ctx.tree('p', tree, dom='nonneg0')
  g = ctx.tree('g', tree, dom='real0')
  s0 = ctx.init(tx, p)
  v = ctx.val(256)
  u, s = ctx.update(tx, g, s0, p)
  ctx.eq('nonnegative', '%s: update' % label, u, m1(lambda a, b: V.vec(lambda x, y: T.ite(T.lt(T.add(x, y), T.ZERO), T.neg(y), x), a, b), g, p), v, dtypes=True)
  ctx.eq('nonnegative', '%s: state' % label, s, s0)
  new = ctx.call('apply_updates', p, u)
  for k, (x, y, w) in enumerate(zip(V.tree_leaves(new), V.tree_leaves(p), V.tree_leaves(g))):
    ctx.holds('nonnegative', '%s: params stay non-negative, leaf %d' % (label, k), V.vec(lambda t: T.ge(t, T.ZERO), x), v)
    ctx.holds('nonnegative', '%s: lands exactly on zero, leaf %d' % (label, k),
              V.vec(lambda n, o, d: T.lor(T.ge(T.add(o, d), T.ZERO), T.eq(n, T.ZERO)), x, y, w), v)
  # several steps, anywhere in a chain's tail
  tx2 = ctx.call('chain', ctx.call('scale', -1.0), tx)
  s, q = ctx.init(tx2, p), p
  for i in range(3):
    g = ctx.tree('g%d' % i, tree)
    u, s = ctx.update(tx2, g, s, q)
    q = ctx.call('apply_updates', q, u)
    for k, x in enumerate(V.tree_leaves(q)):
      ctx.holds('nonnegative', '%s: after step %d of a chain, leaf %d' % (label, i + 1, k), V.vec(lambda t: T.ge(t, T.ZERO), x), v)
  # negative params are moved to zero
  n = ctx.tree('n', tree, dom=('range', -3.0, -0.5))
  u, s = ctx.update(tx, ctx.tree('d', tree, dom=('range', -1.0, 0.4)), s0, n)
  ctx.eq('nonnegative', '%s: negative params move to zero' % label, u, m1(lambda a: -a, n), v)


def missing(ctx):
  tx = ctx.call('keep_params_nonnegative')
  p = ctx.tree('p')
  s = ctx.init(tx, p)
  ctx.expect_raise('nonnegative', 'params None', lambda: ctx.update(tx, p, s, None))


def nans(ctx, label, tree):
  tx = ctx.call('zero_nans')
  p = ctx.tree('p', tree)
  s0 = ctx.init(tx, p)
  leaves, td = V.tree_flatten(p)
  F = V.tree_unflatten(td, [ref(T.FALSE, 'bool') for _ in leaves])
  known = isinstance(s0, ANT) and 'found_nan' in s0.fields
  if known: ctx.eq('zero_nans', '%s: initial flags' % label, s0.get('found_nan'), F, dtypes=True)
  s = s0
  v = ctx.val(256)
  for i, dom in enumerate((('set', (NAN, INF, -INF, 1.5, -2.0, 0.0)), 'real', ('set', (NAN,)), ('set', (INF, -INF, 0.0)))):
    g = ctx.tree('g%d' % i, tree, dom=dom)
    for given in ((p,), ()):
      u, s1 = ctx.update(tx, g, s, *given)
      lab = '%s: step %d%s' % (label, i + 1, ' (params given)' if given else '')
      ctx.eq('zero_nans', lab, u, m1(lambda a: V.vec(lambda t: T.ite(T.isnan(t), T.ZERO, t), a), g), v, dtypes=True, ieee=True)
      fl = [T.FALSE] * len(leaves)
      for k, l in enumerate(V.tree_leaves(g)):
        for t in l.a.reshape(-1): fl[k] = T.lor(fl[k], T.isnan(t))
      if known: ctx.eq('zero_nans', lab + ': flags', s1.get('found_nan'), V.tree_unflatten(td, [ref(f, 'bool') for f in fl]), v, dtypes=True)
    s = s1


def check(ctx):
  for nm, tree in tuple(TREES) + tuple(ctx.directed('constrain.py').items()):
    ctx.section('nonneg ' + nm, nonneg, nm, tree)
    ctx.section('nans ' + nm, nans, nm, tree)
  ctx.section('missing', missing)


_ = np, Arr
