"""Every public loss is interpreted on symbolic predictions, targets and hyperparameters of many
shapes and its value graph decided equal, entry by entry, to the documented formula; the graphs of
the cross entropies and of their reverse-mode derivatives are shown finite on huge logits under IEEE
evaluation; mismatching and integer inputs must reach the documented rejection."""
import numpy as np

from .. import terms as T, values as V
from ..spec import total
from ..values import Arr

RULE = """value-graph equality with the documented per-entry formula; finiteness of value and derivative graphs on huge inputs; rejection on every path"""
FLOOR = 250
SHAPES = ((), (1,), (3,), (2, 3), (2, 1, 2), (1, 2, 1, 2))
PAIRS = (((3,), (2, 3)), ((1,), (2, 2)), ((2, 1), (2, 3)), ((1, 3), (2, 3)))
HUGE = ('set', (1e300, -1e300, 1e150, -1e150, 1e5, -1e5, 800., -800., 0.0, -0.0, 1.5))
BIGF = ('range', 30., 90.)


def bc(f, *arrs, dtype='float32'):
  """Applies f to broadcast entries."""
  bs = np.broadcast_arrays(*[x.a for x in arrs])
  out = np.empty(bs[0].shape, dtype=object)
  for i in np.ndindex(*out.shape): out[i] = f(*[b[i] for b in bs])
  return Arr(out, dtype)


def rows(f, *arrs, dtype='float32'):
  """Reduces the last axis of broadcast arrays with f on lists of terms."""
  bs = np.broadcast_arrays(*[x.a for x in arrs])
  out = np.empty(bs[0].shape[:-1], dtype=object)
  for i in np.ndindex(*out.shape): out[i] = f(*[list(b[i]) for b in bs])
  return Arr(out, dtype)


def huber(x, d):
  a = T.unary('abs', x)
  return T.ite(T.le(a, d), T.mul(T.const(.5), T.mul(x, x)), T.sub(T.mul(d, a), T.mul(T.const(.5), T.mul(d, d))))


def sigm(x): return T.div(T.ONE, T.add(T.ONE, T.unary('exp', T.neg(x))))


def bce(x, y): return T.neg(T.add(T.mul(y, T.unary('log', sigm(x))), T.mul(T.sub(T.ONE, y), T.unary('log', T.sub(T.ONE, sigm(x))))))


def sce(xs, ys):
  z = total([T.unary('exp', x) for x in xs])
  r = T.ZERO
  for x, y in zip(xs, ys): r = T.sub(r, T.mul(y, T.unary('log', T.div(T.unary('exp', x), z))))
  return r


def cosim(eps):
  def f(xs, ys):
    n = lambda v: T.maximum(T.unary('sqrt', total([t * t for t in v])), eps)
    r = T.ZERO
    for x, y in zip(xs, ys): r = T.add(r, T.mul(x, y))
    return T.div(r, T.mul(n(xs), n(ys)))
  return f


def regress(ctx, shp, tshp):
  x, y = ctx.arr('x', shp), ctx.arr('y', tshp)
  lab = '%s against %s' % (shp, tshp)
  d = ctx.h('delta', ('range', .1, 2.))
  half = lambda e: T.mul(T.const(.5), T.mul(e, e))
  C = ctx.call
  for jit in (False, True):
    ctx.I.jit = jit
    try:
      t = lab + (', compiled' if jit else '')
      ctx.eq('l2_loss', t, C('l2_loss', x, y), bc(lambda a, b: half(a - b), x, y), dtypes=True)
      ctx.eq('l2_loss', t + ', keywords', C('l2_loss', targets=y, predictions=x), bc(lambda a, b: half(a - b), x, y))
      ctx.eq('l2_loss', t + ', no targets', C('l2_loss', x), bc(half, x))
      ctx.eq('l2_loss', t + ', targets None', C('l2_loss', x, None), bc(half, x))
      ctx.eq('huber_loss', t, C('huber_loss', x, y, d), bc(lambda a, b: huber(a - b, d.item()), x, y), dtypes=True)
      ctx.eq('huber_loss', t + ', keywords', C('huber_loss', delta=d, targets=y, predictions=x), bc(lambda a, b: huber(a - b, d.item()), x, y))
      ctx.eq('huber_loss', t + ', no targets', C('huber_loss', x, delta=d), bc(lambda a: huber(a, d.item()), x))
      ctx.eq('huber_loss', t + ', default delta', C('huber_loss', x, y), bc(lambda a, b: huber(a - b, T.ONE), x, y))
    finally:
      ctx.I.jit = False
  arrd = ctx.arr('dl', (), ('range', .1, 2.))
  ctx.eq('huber_loss', lab + ', array delta', C('huber_loss', x, y, arrd), bc(lambda a, b: huber(a - b, arrd.item()), x, y))


def huber_far(ctx):
  """Far and near errors, and exactly at the threshold."""
  for lab, vals in (('at delta', (1.0, -1.0)), ('far', (1e6, -1e6, 30.)), ('zero', (0.0,)), ('near', (1e-4, -1e-4)), ('infinite', (float('inf'), -float('inf')))):
    x = ctx.arr('x', (3,), ('set', vals))
    ctx.eq('huber_loss', lab, ctx.call('huber_loss', x), bc(lambda a: huber(a, T.ONE), x) if lab != 'infinite' else bc(lambda a: T.const(float('inf')), x), ieee=True)
  x, y, d = ctx.arr('x', (2,)), ctx.arr('y', (2,)), ctx.h('d', ('range', .1, 2.))
  g = grads(ctx, 'optax.huber_loss(x, y, d)', x, optax_args=dict(y=y, d=d))
  ctx.eq('huber_loss', 'gradient is the clipped error', g, bc(lambda a, b: T.maximum(T.minimum(a - b, d.item()), T.neg(d.item())), x, y))
  z = ctx.arr('z', (2,), ('set', (0.0, 1.0, -1.0)))
  g = grads(ctx, 'optax.huber_loss(x)', z)
  ctx.finite('huber_loss', 'gradient at zero and at delta', g, ctx.val(32))


def grads(ctx, expr, x, optax_args=None):
  env = ctx.scripted('''
  import jax
  import jax.numpy as jnp
  import optax
  g = jax.grad(lambda x: jnp.sum(%s))(x0)
  ''' % expr, x0=x, **(optax_args or {}))
  return env['g']


def smooth(ctx, shp):
  if not shp: return
  y, a = ctx.arr('y', shp, 'real'), ctx.h('alpha', 'unit')
  for jit in (False, True):
    ctx.I.jit = jit
    try:
      for how, r in (('positional', ctx.call('smooth_labels', y, a)), ('keywords', ctx.call('smooth_labels', alpha=a, labels=y))):
        ctx.eq('smooth_labels', '%s, %s%s' % (shp, how, ', compiled' if jit else ''), r, bc(lambda t: (T.ONE - a.item()) * t + a.item() / T.const(shp[-1]), y), dtypes=True)
    finally:
      ctx.I.jit = False
  ctx.eq('smooth_labels', '%s, alpha 0' % (shp,), ctx.call('smooth_labels', y, 0.0), y)
  ctx.eq('smooth_labels', '%s, alpha 1' % (shp,), ctx.call('smooth_labels', y, 1.0), bc(lambda t: T.const(1.0 / shp[-1]), y))


def entropies(ctx, shp, tshp):
  x, y = ctx.arr('x', shp), ctx.arr('y', tshp, 'unit')
  lab = '%s against %s' % (shp, tshp)
  for jit in (False, True):
    ctx.I.jit = jit
    try:
      t = lab + (', compiled' if jit else '')
      ctx.eq('sigmoid_binary_cross_entropy', t, ctx.call('sigmoid_binary_cross_entropy', x, y), bc(bce, x, y), dtypes=True, tol=1e-7)
      ctx.eq('sigmoid_binary_cross_entropy', t + ', keywords', ctx.call('sigmoid_binary_cross_entropy', labels=y, logits=x), bc(bce, x, y), tol=1e-7)
      if shp and shp[-1] == tshp[-1]:
        ctx.eq('softmax_cross_entropy', t, ctx.call('softmax_cross_entropy', x, y), rows(sce, x, y), dtypes=True, tol=1e-7)
        ctx.eq('softmax_cross_entropy', t + ', keywords', ctx.call('softmax_cross_entropy', labels=y, logits=x), rows(sce, x, y), tol=1e-7)
    finally:
      ctx.I.jit = False
  # arbitrary real "labels" (the formula, not only distributions)
  w = ctx.arr('w', tshp)
  ctx.eq('sigmoid_binary_cross_entropy', lab + ', any labels', ctx.call('sigmoid_binary_cross_entropy', x, w), bc(bce, x, w), tol=1e-7)
  if shp and shp[-1] == tshp[-1]: ctx.eq('softmax_cross_entropy', lab + ', any labels', ctx.call('softmax_cross_entropy', x, w), rows(sce, x, w), tol=1e-7)


def stable(ctx, shp, lo):
  """Values and gradients on huge logits; labels in [0,1] including both ends."""
  x = ctx.arr('x', shp, HUGE)
  y = ctx.arr('y', shp, ('set', (0.0, 1.0, 0.25, 0.5)))
  v = ctx.val(512)
  for f in ('sigmoid_binary_cross_entropy', 'softmax_cross_entropy'):
    if f[:4] == 'soft' and not shp: continue
    r = ctx.call(f, x, y)
    ctx.finite('stability', '%s %s: value' % (f, shp), r, v)
    # each call's limit: x*(1-y) or -x*y on the far side
    if f[:4] == 'sigm':
      big = ctx.arr('X', shp, ('set', (1e300, -1e300, 1e6, -1e6, 900., -900.)))
      ctx.eq('stability', '%s %s: asymptote' % (f, shp), ctx.call(f, big, y),
             bc(lambda a, b: T.ite(T.gt(a, T.ZERO), T.mul(a, T.ONE - b), T.neg(T.mul(a, b))), big, y), ieee=True)
    for wrt, arg in (('logits', 'x'), ('labels', 'y')):
      e = ctx.scripted('''
      import jax
      import jax.numpy as jnp
      import optax
      def f(%s, %s): return jnp.sum(optax.%s(x, y))
      g = jax.grad(f)(%s, %s)
      ''' % ((arg, 'xy'.replace(arg, ''), f) + ((arg + '0', 'xy'.replace(arg, '') + '0'))), x0=x, y0=y)
      ctx.finite('stability', '%s %s: gradient in the %s' % (f, shp, wrt), e['g'], v)
  # gradients are the documented ones at ordinary logits
  x, y = ctx.arr('x', shp), ctx.arr('y', shp, 'unit')
  g = grads(ctx, 'optax.sigmoid_binary_cross_entropy(x, y)', x, dict(y=y))
  ctx.eq('gradient', 'sigmoid_binary_cross_entropy %s' % (shp,), g, bc(lambda a, b: sigm(a) - b, x, y), tol=1e-7)
  if shp:
    g = grads(ctx, 'optax.softmax_cross_entropy(x, y)', x, dict(y=y))
    out = np.empty(shp, dtype=object)
    for i in np.ndindex(*shp[:-1]):
      z = total([T.unary('exp', t) for t in x.a[i]])
      s = total(list(y.a[i]))
      for j in range(shp[-1]): out[i + (j,)] = T.sub(T.mul(s, T.div(T.unary('exp', x.a[i + (j,)]), z)), y.a[i + (j,)])
    ctx.eq('gradient', 'softmax_cross_entropy %s' % (shp,), g, Arr(out, 'float32'), tol=1e-7)
  del lo


def cosine(ctx, shp, tshp):
  x, y, e = ctx.arr('x', shp), ctx.arr('y', tshp), ctx.h('eps', ('range', .2, 3.))
  lab = '%s against %s' % (shp, tshp)
  v = ctx.val(256)
  for jit in (False, True):
    ctx.I.jit = jit
    try:
      t = lab + (', compiled' if jit else '')
      for eps, a, k in ((T.ZERO, (), {}), (e.item(), (e,), {}), (e.item(), (), {'epsilon': e}), (T.const(1e-3), (1e-3,), {})):
        n = '%s, epsilon %s' % (t, 'default' if not (a or k) else 'given' if a and a[0] is e else 'by keyword' if k else 'small')
        ctx.eq('cosine_similarity', n, ctx.call('cosine_similarity', x, y, *a, **k), rows(cosim(eps), x, y), v, dtypes=True)
        ctx.eq('cosine_distance', n, ctx.call('cosine_distance', x, y, *a, **k), rows(lambda p, q: T.sub(T.ONE, cosim(eps)(p, q)), x, y), v, dtypes=True)
      ctx.eq('cosine_distance', t + ', keywords', ctx.call('cosine_distance', targets=y, predictions=x, epsilon=e), rows(lambda p, q: T.sub(T.ONE, cosim(e.item())(p, q)), x, y), v)
    finally:
      ctx.I.jit = False


def reject(ctx):
  f, i = ctx.arr('f', (2, 3)), ctx.arr('i', (2, 3), ('ints', 0, 2), 'int32')
  b = ctx.arr('b', (2, 3), 'bool', 'bool')
  bad = ctx.arr('g', (2, 4))
  for jit in (False, True):
    ctx.I.jit = jit
    t = ' compiled' if jit else ''
    try:
      R = lambda nm, th: ctx.expect_raise('reject', nm + t, th, None)
      for q, z in (('integer', i), ('boolean', b)):
        R('l2_loss %s predictions' % q, lambda: ctx.call('l2_loss', z, f))
        R('l2_loss %s predictions only' % q, lambda: ctx.call('l2_loss', z))
        R('huber_loss %s predictions' % q, lambda: ctx.call('huber_loss', z, f))
        R('smooth_labels %s labels' % q, lambda: ctx.call('smooth_labels', z, 0.1))
        for n in ('sigmoid_binary_cross_entropy', 'softmax_cross_entropy', 'cosine_similarity', 'cosine_distance'):
          R('%s %s first' % (n, q), lambda: ctx.call(n, z, f))
          R('%s %s second' % (n, q), lambda: ctx.call(n, f, z))
      for n in ('sigmoid_binary_cross_entropy', 'softmax_cross_entropy', 'cosine_similarity', 'cosine_distance'):
        R(n + ' shapes mismatch', lambda: ctx.call(n, f, bad))
        R(n + ' first not broadcastable to second', lambda: ctx.call(n, f, ctx.arr('h', (3,))))
        R(n + ' first larger than second', lambda: ctx.call(n, f, ctx.arr('h', (1, 3))))
    finally:
      ctx.I.jit = False
  r = ctx.guard('l2_loss integer targets', ctx.call, 'l2_loss', f, i, rule='accept')
  if r is not None: ctx.eq('accept', 'l2_loss integer targets', r, bc(lambda a, c: T.const(.5) * (a - c) * (a - c), f, i))


def dtypes(ctx, d):
  x, y = ctx.arr('x', (2, 3), dtype=d), ctx.arr('y', (2, 3), 'unit', dtype=d)
  for nm, r in (('l2_loss', ctx.call('l2_loss', x, y)), ('huber_loss', ctx.call('huber_loss', x, y, 0.7)), ('smooth_labels', ctx.call('smooth_labels', y, 0.1)),
                ('sigmoid_binary_cross_entropy', ctx.call('sigmoid_binary_cross_entropy', x, y)), ('softmax_cross_entropy', ctx.call('softmax_cross_entropy', x, y)),
                ('cosine_similarity', ctx.call('cosine_similarity', x, y, 1e-3)), ('cosine_distance', ctx.call('cosine_distance', x, y))):
    ctx.true('dtype', '%s of %s' % (nm, d), r.dtype == d, 'returns %s' % r.dtype)


def check(ctx):
  ps = [(s, s) for s in SHAPES] + list(PAIRS)
  for s, t in ps:
    ctx.section('regress %s %s' % (s, t), regress, s, t)
    if len(t) >= len(s): ctx.section('entropies %s %s' % (s, t), entropies, s, t)
    if s and s[-1] == t[-1] and len(t) >= len(s): ctx.section('cosine %s %s' % (s, t), cosine, s, t)
  for s, t in ((b, a) for a, b in PAIRS): ctx.section('regress %s %s' % (s, t), regress, s, t)
  for s in SHAPES:
    ctx.section('smooth %s' % (s,), smooth, s)
    ctx.section('stable %s' % (s,), stable, s, 0)
  ctx.section('huber far', huber_far)
  ctx.section('reject', reject)
  for d in ('float16', 'bfloat16', 'float32'): ctx.section('dtypes ' + d, dtypes, d)
