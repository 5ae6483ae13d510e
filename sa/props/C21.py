"""flatten is analysed around an opaque transformation that sees everything it is given: it must see
one vector made of all leaves in tree order for gradients and params, and every leaf of the result
must be its own slice with its own shape and dtype; around an entrywise transformation the graphs
equal those without flattening."""
import numpy as np

from .. import terms as T, values as V
from ..opaque import Opaque, Elementwise
from ..spec import L, TREE, MIXED, WIDE
from ..values import Arr

RULE = """value-graph equality around an uninterpreted inner transformation over trees of ranks 0 to 4"""
FLOOR = 40
TREES = {
    'nested': TREE, 'wide': WIDE, 'bare matrix': L(2, 2), 'bare scalar': L(), 'bare vector': L(3), 'one leaf': {'a': L(2)}, 'scalars': [L(), L(), L()],
    'empty leaf': {'a': L(2), 'b': L(0), 'c': L()}, 'empty leaf last': [L(1), L(0, 2)], 'rank 4': {'a': L(1, 2, 1, 2), 'b': (L(2, 1, 2), L())},
    'repeated shape': [L(2), L(2), L(2)], 'mixed dtypes': MIXED, 'half': {'a': L(2, dtype='float16'), 'b': L(1, 2, dtype='float16')},
    'none': {'a': None, 'b': L(2), 'c': L()}, 'deep': {'b': {'y': L(2), 'x': L()}, 'a': [[L(1)], (L(2),)]},
}


def vec(tree): return [t for l in V.tree_leaves(tree) for t in V.as_arr(l).terms()]


def flatv(ctx, tree):
  ts = vec(tree)
  a = np.empty((len(ts),), dtype=object)
  for i, t in enumerate(ts): a[i] = t
  return Arr(a, 'float32')


def split(tree, v):
  ts, i = list(v.a.reshape(-1)), 0
  ls, td = V.tree_flatten(tree)
  out = []
  for l in ls:
    a = np.empty(l.shape, dtype=object)
    for idx in np.ndindex(*l.shape):
      a[idx] = ts[i]
      i += 1
    out.append(V.cast(Arr(a, 'float32'), l.dtype) if V.ROUNDING[0] else Arr(a, l.dtype))
  return V.tree_unflatten(td, out)


def opaque(ctx, tree, given, label):
  m = Opaque(ctx, 'in')
  tx = ctx.call('flatten', m.tx)
  p = ctx.tree('p', tree)
  s = ctx.init(tx, p)
  N = len(vec(p))
  ok = lambda x: isinstance(x, Arr) and x.shape == (N,)
  ctx.true('flatten', label + ': wrapped init receives one vector', all(ok(x) for x in m.inits), 'init receives %s' % [V.describe(x) for x in m.inits])
  inner = m.pure_init(flatv(ctx, p))
  ctx.eq('flatten', label + ': wrapped state initialised from the vector of params', s, inner)
  s = inner = {'m': V.sym('sm', (N,), 'real', 'float32'), 'k': V.sym('sk', (), 'real', 'float32')}
  for k in range(2):
    g, pk = ctx.tree('g%d' % k, tree), (ctx.tree('p%d' % k, tree) if given else None)
    u, s = ctx.update(tx, g, s, *([pk] if given else []))
    eu, inner = m.pure(flatv(ctx, g), inner, None if pk is None else flatv(ctx, pk))
    ctx.eq('flatten', '%s: updates of step %d' % (label, k + 1), u, split(g, eu), dtypes=True)
    ctx.eq('flatten', '%s: wrapped state after step %d' % (label, k + 1), s, inner)
  ctx.true('flatten', label + ': wrapped update receives vectors', all(ok(a) and (c is None or ok(c)) for a, _, c in m.updates),
           'update receives %s' % [(V.describe(a), V.describe(c)) for a, _, c in m.updates])


def elementwise(ctx, tree, given, label):
  e = Elementwise(ctx, 'e')
  tx = ctx.call('flatten', e.tx)
  p = ctx.tree('p', tree)
  s, s2 = ctx.init(tx, p), ctx.init(e.tx, p)
  for k in range(2):
    g, pk = ctx.tree('g%d' % k, tree), (ctx.tree('p%d' % k, tree) if given else None)
    r = [pk] if given else []
    u, s = ctx.update(tx, g, s, *r)
    eu, s2 = ctx.update(e.tx, g, s2, *r)
    ctx.eq('flatten', '%s, entrywise member: updates of step %d' % (label, k + 1), u, eu, dtypes=True)


def real(ctx, name, args, tree):
  """Real entrywise optimizers, several steps."""
  a = ctx.call(name, *args)
  tx = ctx.call('flatten', ctx.call(name, *args))
  p = ctx.tree('p', tree)
  s, s2 = ctx.init(tx, p), ctx.init(a, p)
  for k in range(2):
    g = ctx.tree('g%d' % k, tree)
    u, s = ctx.update(tx, g, s, p)
    eu, s2 = ctx.update(a, g, s2, p)
    ctx.eq('flatten', 'flatten(%s): updates of step %d' % (name, k + 1), u, eu)


def precise(ctx, tree, given, label):
  """Leaves of several precisions share one vector wide enough for all: only a result is rounded, to its own leaf's dtype."""
  V.ROUNDING[0] = True
  opaque(ctx, tree, given, label)


def reused(ctx):
  """One transformation object serves trees of different structure, shape and dtype in turn."""
  e = Elementwise(ctx, 'e')
  tx = ctx.call('flatten', e.tx)
  for nm, t in list(TREES.items()) + list(TREES.items())[::-1]:
    p, g = ctx.tree('p', t), ctx.tree('g', t)
    s, s2 = ctx.init(tx, p), ctx.init(e.tx, p)
    u, _ = ctx.update(tx, g, s, p)
    eu, _ = ctx.update(e.tx, g, s2, p)
    ctx.eq('flatten', 'one object, several trees: %s' % nm, u, eu, dtypes=True)


def check(ctx):
  TREES.update(ctx.directed('wrappers.py'))
  for nm, t in TREES.items():
    for given in (True, False):
      ctx.section('opaque %s %s' % (nm, given), opaque, t, given, '%s, params %s' % (nm, 'given' if given else 'omitted'))
      ctx.section('elementwise %s %s' % (nm, given), elementwise, t, given, '%s, params %s' % (nm, 'given' if given else 'omitted'))
  ctx.section('reused', reused)
  for nm, t in (('half first', [L(2, dtype='bfloat16'), L(2), L(1, 2, dtype='float16')]), ('half last', {'a': L(2), 'b': L(2, dtype='bfloat16')})):
    for given in (True, False): ctx.section('precise %s %s' % (nm, given), precise, t, given, 'leaves of several precisions, %s, params %s' % (nm, 'given' if given else 'omitted'))
  for nm, args in (('adam', (0.1,)), ('sgd', (0.1, 0.9, True)), ('rmsprop', (0.1,)), ('adamw', (0.1,)), ('clip_by_global_norm', (1.0,))):
    ctx.section('real ' + nm, real, nm, args, TREE)


_ = T
