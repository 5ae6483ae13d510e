"""hvp, hessian_diag and fisher_diag are interpreted on an uninterpreted smooth loss of every entry of
the params, inputs and targets; the extracted graphs (formal derivatives) must equal the formal
Hessian-vector product, the Hessian's diagonal and the squared gradient in flattened order."""
import numpy as np

from .. import terms as T, values as V
from ..spec import L, MIXED, TREE
from ..values import Arr

RULE = """value-graph equality with formal second and first derivatives of an uninterpreted loss, in flattened leaf order"""
FLOOR = 90
TREES = {'nested': TREE, 'bare': L(3), 'scalar': L(), 'matrix': L(2, 3), 'list of scalars': [L(), L(), L()], 'ranks': {'s': L(), 'v': L(2), 'k': [L(1, 2, 1)]},
         'none': {'a': None, 'b': L(2)}, 'one entry': (L(1),), 'unsorted keys': {'z': L(2), 'a': L(1), 'm': L()}, 'half': L(2, dtype='float16'), 'bfloat16': {'a': L(2, dtype='bfloat16'), 'b': L(dtype='bfloat16')}, 'mixed': MIXED}


def loss_of(ctx, log=None, dtype='float32'):
  def loss(p, x, y):
    if log is not None: log.append((p, x, y))
    return Arr(V.oarr(T.app('F', V.all_terms(p) + V.all_terms(x) + [T.const(17)] + V.all_terms(y))), dtype, traced=True)
  return ctx.prim(loss, 'loss')


def expect(p, x, y):
  ps = V.all_terms(p)
  F = T.app('F', ps + V.all_terms(x) + [T.const(17)] + V.all_terms(y))
  g = [T.diff(F, t) for t in ps]
  return ps, g


def data(ctx, kind):
  if kind == 'arrays': return ctx.arr('x', (2,)), ctx.arr('y', ())
  if kind == 'trees': return {'b': ctx.arr('x', (2,)), 'a': ctx.arr('x2', ())}, [ctx.arr('y', (1,)), ctx.arr('y2', ())]
  return None, None


def case(ctx, tname, kind, how, jit):
  tree = TREES[tname]
  p = ctx.tree('p', tree)
  x, y = data(ctx, kind)
  ps, g = expect(p, x, y)
  n = len(ps)
  leaves, td = V.tree_flatten(p)
  dts = {l.dtype for l in leaves}
  flat = leaves[0].dtype if len(dts) == 1 else 'float32'
  lab = '%s params, %s data, %s%s' % (tname, kind, how, ', compiled' if jit else '')
  v = ctx.arr('v', (n,), dtype=flat)
  f = loss_of(ctx, dtype=flat)
  ctx.I.jit = jit
  try:
    if how == 'positional':
      hv = ctx.call('hvp', f, v, p, x, y)
      hd = ctx.call('hessian_diag', f, p, x, y)
      fd = ctx.call('fisher_diag', f, p, x, y)
    else:
      hv = ctx.call('hvp', loss=f, v=v, params=p, inputs=x, targets=y)
      hd = ctx.call('hessian_diag', loss=f, params=p, inputs=x, targets=y)
      fd = ctx.call('fisher_diag', negative_log_likelihood=f, params=p, inputs=x, targets=y)
  finally:
    ctx.I.jit = False
  H = [[T.diff(g[i], ps[j]) for j in range(n)] for i in range(n)]
  out, k = [], 0
  for l in leaves:
    a = np.empty(l.shape, dtype=object)
    for i in np.ndindex(*l.shape):
      r = T.ZERO
      for j in range(n): r = T.add(r, T.mul(H[k][j], v.a[j]))
      a[i] = r
      k += 1
    out.append(Arr(a, l.dtype))
  ctx.eq('hvp', lab, hv, V.tree_unflatten(td, out))
  mk = lambda ts: Arr(np.array(ts, dtype=object), flat)
  ctx.eq('hessian_diag', lab, hd, mk([H[i][i] for i in range(n)]))
  ctx.eq('fisher_diag', lab, fd, mk([t * t for t in g]))
  ctx.true('shape', lab, getattr(hd, 'shape', None) == (n,) == getattr(fd, 'shape', None), 'diagonals have shapes %s and %s' % (getattr(hd, 'shape', None), getattr(fd, 'shape', None)))
  if len(dts) == 1: ctx.true('dtype', lab, hd.dtype == fd.dtype == flat, 'diagonals of %s params are %s and %s' % (flat, hd.dtype, fd.dtype))


def written(ctx):
  """A loss written in jax.numpy (a small network) agrees with its formal derivatives."""
  env = ctx.scripted('''
  import jax.numpy as jnp
  import jax
  def loss(p, x, y):
    h = jnp.tanh(jnp.dot(x, p['w']) + p['b'])
    return jnp.mean((h - y) ** 2) + 0.1 * jnp.sum(jnp.exp(p['s']) * p['b'])
  ''')
  f = env['loss']
  p = {'w': ctx.arr('w', (2, 2)), 'b': ctx.arr('b', (2,)), 's': ctx.arr('s', ())}
  x, y = ctx.arr('x', (2, 2)), ctx.arr('y', (2, 2))
  F = ctx.call(f, p, x, y).item()
  ps = V.all_terms(p)
  g = [T.diff(F, t) for t in ps]
  v = ctx.arr('v', (len(ps),))
  hv = ctx.call('hvp', f, v, p, x, y)
  e = []
  for gi in g:
    r = T.ZERO
    for t, vj in zip(ps, v.a): r = T.add(r, T.mul(T.diff(gi, t), vj))
    e.append(r)
  for i, (a, b) in enumerate(zip(V.all_terms(hv), e)): ctx.eq('network', 'hvp entry %d' % i, Arr(V.oarr(a), 'float32'), b)
  ctx.eq('network', 'hessian_diag', ctx.call('hessian_diag', f, p, x, y), Arr(np.array([T.diff(gi, t) for gi, t in zip(g, ps)], dtype=object), 'float32'))
  ctx.eq('network', 'fisher_diag', ctx.call('fisher_diag', f, p, x, y), Arr(np.array([gi * gi for gi in g], dtype=object), 'float32'))


def check(ctx):
  for t in TREES:
    for kind in ('arrays', 'trees', 'none'):
      for how in ('positional', 'keywords'):
        for jit in (False, True):
          if jit and kind != 'arrays' and not ctx.thorough: continue
          ctx.section('%s %s %s %s' % (t, kind, how, jit), case, t, kind, how, jit)
  ctx.section('network', written)
