"""differentially_private_aggregate and the example-level sensitivity: the value graph of the output
is decided equal to (sum over examples of clipped gradients + std * fresh normal)/batch for symbolic
per-example gradients, and the pre-noise sum's change under replacing one example is bounded."""
import numpy as np

from .. import registry as R
from .. import terms as T, values as V
from ..spec import L, MIXED, total, TREE, WIDE
from ..values import Arr
from .C16 import samples

RULE = """value-graph equality with clip-then-sum-then-noise; sensitivity inequality over the value graph; rejected inputs raise"""
FLOOR = 60
TREES = {'nested': TREE, 'bare': L(2), 'scalar': L(), 'ranks': {'s': L(), 'v': L(3), 'm': (L(2, 2),), 'k': [L(2, 1, 3)]}, 'none': {'a': None, 'b': L(2), 'c': L()}, 'mixed': MIXED, 'single entry': [L(1)], 'wide': WIDE}


def clipped(g, clip, b):
  """Per-leaf pre-noise sums."""
  leaves = V.tree_leaves(g)
  norms = []
  for e in range(b):
    norms.append(T.unary('sqrt', total([t * t for l in leaves for t in _ex(l, e)])))
  out = []
  for l in leaves:
    a = np.empty(l.shape[1:], dtype=object)
    for i in np.ndindex(*l.shape[1:]):
      r = T.ZERO
      for e in range(b): r = T.add(r, T.div(l.a[(e,) + i], T.maximum(T.div(norms[e], clip), T.ONE)))
      a[i] = r
    out.append(a)
  return out, norms


def _ex(l, e): return list(np.asarray(l.a[e], dtype=object).reshape(-1)) if l.a.ndim > 1 else [l.a[e]]


def agg(ctx, tname, b, how):
  tree = TREES[tname]
  clip, mult = ctx.h('clip', ('range', 0.5, 4.0)), ctx.h('mult', 'pos')
  lab = '%s, batch of %d, %s' % (tname, b, how)
  tx = ctx.call('differentially_private_aggregate', clip, mult, 5) if how == 'positional' else ctx.call('differentially_private_aggregate', l2_norm_clip=clip, noise_multiplier=mult, seed=5)
  p = ctx.tree('p', tree)
  s = ctx.init(tx, p)
  g = ctx.tree('g', R.batched(tree, b))
  v = ctx.val(192)
  for k in range(2):
    u, s = ctx.update(tx, g, s, *([p] if k else []))
    sums, norms = clipped(g, clip.item(), b)
    exp = []
    for x, a, l in zip(V.tree_leaves(u), sums, V.tree_leaves(g)):
      def f(t, q):
        z = samples(t)
        z = z[0] if len(z) == 1 else T.var('missing draw')
        return (q + clip.item() * mult.item() * z) / T.const(float(b))
      exp.append(Arr(V.vec(f, x, a), l.dtype))
    ctx.eq('aggregate', '%s, step %d' % (lab, k + 1), u, V.tree_unflatten(V.tree_flatten(g)[1], exp), v, dtypes=True)
    kinds = {y.val[0].split(':')[1] for l in V.tree_leaves(u) for t in l.terms() for y in samples(t)}
    ctx.true('aggregate', '%s, step %d: the noise is standard normal' % (lab, k + 1), kinds == {'normal'}, 'draws of %s' % sorted(kinds))
    draws = [y.id for l in V.tree_leaves(u) for t in l.terms() for y in samples(t)]
    ctx.true('aggregate', '%s, step %d: independent noise per coordinate' % (lab, k + 1), len(draws) == len(set(draws)) > 0, 'coordinates share a draw')
  # the same through dpsgd with unit learning rate
  tx = ctx.call('dpsgd', 1.0, clip, mult, 5)
  d, _ = ctx.update(tx, g, ctx.init(tx, p))
  tx = ctx.call('differentially_private_aggregate', clip, mult, 5)
  e, _ = ctx.update(tx, g, ctx.init(tx, p))
  ctx.eq('aggregate', lab + ': dpsgd', d, V.tree_map(lambda l: Arr(V.vec(T.neg, l), l.dtype), e), v)
  del norms


def sensitivity(ctx, tname, b):
  """Replacing one example changes the pre-noise sum by at most the clipping norm per example removed."""
  tree = TREES[tname]
  clip = ctx.h('clip', ('range', 0.5, 4.0))
  tx = ctx.call('differentially_private_aggregate', clip, 0.0, 5)
  p = ctx.tree('p', tree)
  g = ctx.tree('g', R.batched(tree, b))
  v = ctx.val(256)
  u, _ = ctx.update(tx, g, ctx.init(tx, p))
  for e in range(b):
    z = V.tree_map(lambda l: Arr(np.stack([(V.vec(lambda t: T.ZERO, l.a[i]) if i == e else l.a[i]) for i in range(b)]) if l.a.ndim > 1
                                 else _row(l.a, e), l.dtype, traced=True), g)
    w, _ = ctx.update(tx, z, ctx.init(tx, p))
    diff = T.unary('sqrt', total([(x - y) * (x - y) for a, c in zip(V.tree_leaves(u), V.tree_leaves(w)) for x, y in zip(a.terms(), c.terms())]))
    ctx.holds('sensitivity', '%s, batch of %d: dropping example %d' % (tname, b, e), T.le(T.mul(diff, T.const(float(b))), T.mul(clip.item(), T.const(1 + 1e-9))), v)
  # a single huge example
  big = ctx.tree('g', R.batched(tree, b), dom=('range', 50.0, 90.0))
  w, _ = ctx.update(tx, big, ctx.init(tx, p))
  nrm = T.unary('sqrt', total([x * x for l in V.tree_leaves(w) for x in l.terms()]))
  ctx.holds('sensitivity', '%s, batch of %d: mean of huge examples' % (tname, b), T.le(nrm, T.mul(clip.item(), T.const(1 + 1e-9))), ctx.val(64))
  z = V.tree_map(lambda l: Arr(V.vec(lambda t: T.ZERO, l), l.dtype, traced=True), g)
  w, _ = ctx.update(tx, z, ctx.init(tx, p))
  ctx.eq('sensitivity', '%s, batch of %d: zero gradients' % (tname, b), w, V.tree_map(lambda l: Arr(V.vec(lambda t: T.ZERO, l.a[0] if l.a.ndim > 1 else V.oarr(l.a[0])), l.dtype), g), v, ieee=True)


def _row(a, e):
  out = a.copy()
  out[e] = T.ZERO
  return out


def reject(ctx):
  tx = ctx.call('differentially_private_aggregate', 1.0, 0.5, 5)
  p = {'a': ctx.arr('a', (2,)), 'b': ctx.arr('b', (2, 2))}
  s = ctx.init(tx, p)
  for lab, g in (('a leaf without a batch axis', {'a': ctx.arr('ga', (3, 2)), 'b': ctx.arr('gb', ())}), ('different batch sizes', {'a': ctx.arr('ga', (3, 2)), 'b': ctx.arr('gb', (2, 2, 2))}),
                 ('different batch sizes, first smaller', {'a': ctx.arr('ga', (2, 2)), 'b': ctx.arr('gb', (3, 2, 2))})):
    ctx.expect_raise('reject', lab, lambda: ctx.update(tx, g, s))
  ctx.expect_raise('reject', 'first leaf without a batch axis', lambda: ctx.update(tx, {'a': ctx.arr('ga', ()), 'b': ctx.arr('gb', (2, 2, 2))}, s), None)
  for jit in (False, True):
    ctx.I.jit = jit
    try:
      r = ctx.guard('accepts a batch', ctx.update, tx, {'a': ctx.arr('ga', (3, 2)), 'b': ctx.arr('gb', (3, 2, 2))}, s, rule='reject')
      ctx.true('reject', 'accepts a common batch%s' % (' compiled' if jit else ''), r is not None, '')
    finally:
      ctx.I.jit = False


def check(ctx):
  for b in ctx.sizes('privacy.py', hi=300): ctx.section('nested %d' % b, agg, 'scalar', b, 'positional')
  TREES.update(ctx.directed('privacy.py', 'linear_algebra.py', hi=100))
  for tname in TREES:
    for b in ((1, 2, 3) + ((4, 5) if ctx.thorough else ())):
      for how in ('positional', 'keywords'): ctx.section('%s %d %s' % (tname, b, how), agg, tname, b, how)
    for b in (1, 2, 3): ctx.section('sens %s %d' % (tname, b), sensitivity, tname, b)
  ctx.section('reject', reject)
