"""The diagonal Gaussian and the array helpers are interpreted on symbolic arrays of every rank and
broadcast pattern; their graphs must equal mean + exp(log_scale) * standard normal draw, the Gaussian
log density summed over parameter axes, and exact element selections, casts and dtypes."""
import math

import numpy as np

from .. import models as M, terms as T, values as V
from ..spec import L, MIXED, TREE, total
from ..values import Arr

RULE = """value-graph equality with the definitions; exact element identity for tiling, casts and diagonal setting; dtype identity"""
FLOOR = 1500
PSHAPES = (((2,), (2,)), ((1,), (1,)), ((3,), (3,)), ((), ()), ((2, 2), (2, 2)), ((3,), ()), ((), (2,)), ((2, 1), (3,)), ((1,), (3,)), ((2, 1, 2), (2, 1, 2)))
SHAPES = ((), (1,), (3,), (2, 2), (2, 1, 3))
CTORS = ('multi_normal', '_src.utils.multi_normal', '_src.utils.MultiNormalDiagFromLogScale')


def density(x, m, s, event):
  """Gaussian log density summed over the trailing `event` axes."""
  shp = np.broadcast_shapes(x.shape, m.shape, s.shape)
  X, Mn, S = (np.broadcast_to(a, shp) for a in (x, m, s))
  el = np.empty(shp, dtype=object)
  for i in np.ndindex(*shp):
    z = T.div(T.sub(X[i], Mn[i]), T.unary('exp', S[i]))
    el[i] = T.neg(T.add(T.add(T.mul(T.const(0.5), T.mul(z, z)), S[i]), T.const(0.5 * math.log(2 * math.pi))))
  if not event: return el
  lead = shp[:len(shp) - event]
  out = np.empty(lead, dtype=object)
  for i in np.ndindex(*lead): out[i] = total(el[i]) if not isinstance(el[i], T.Term) else el[i]
  return out


def gaussian(ctx, ms, ss, jit):
  k = M.key_arr(T.var('key', 'key'), True)
  m, s = ctx.arr('m', ms), ctx.arr('s', ss)
  pshape = np.broadcast_shapes(ms, ss)
  v = ctx.val(96)
  ctx.I.jit = jit
  j = ' compiled' if jit else ''
  try:
    for nm in CTORS:
      if not ctx.has(nm): continue
      for kw in (False, True):
        d = ctx.call(nm, loc=m, log_scale=s) if kw else ctx.call(nm, m, s)
        lab = '%s, mean %s, log scale %s%s%s' % (nm.split('.')[-1], ms, ss, ', keywords' if kw else '', j)
        ctx.eq('accessor', lab + ': log_scale as given', ctx.I.getattr(d, 'log_scale'), s, v, dtypes=True)
        ctx.eq('accessor', lab + ': params as given', list(ctx.I.iterate(ctx.I.getattr(d, 'params'))), [m, s], v, dtypes=True)
        for sh in SHAPES:
          for how in ('positional', 'keywords'):
            sm = ctx.I.call(ctx.I.getattr(d, 'sample'), [sh], {'seed': k}) if how == 'keywords' else ctx.I.call(ctx.I.getattr(d, 'sample'), [sh, k])
            full = sh + pshape
            z = np.empty(full, dtype=object)
            for n, i in enumerate(np.ndindex(*full)): z[i] = T.app('rng:normal:%s:%d' % ('x'.join(map(str, full)), n), [M.key_term(k)])
            want = V.vec(lambda a, b, c: T.add(b, T.mul(T.unary('exp', c), a)), z, np.broadcast_to(m.a, full), np.broadcast_to(s.a, full))
            ctx.eq('sample', '%s: sample shape %s, %s' % (lab, sh, how), sm, Arr(want, 'float32'), v)
          x = ctx.arr('x', sh + pshape)
          want = density(x.a, m.a, s.a, len(pshape))
          ctx.eq('density', '%s: points %s' % (lab, sh), ctx.I.call(ctx.I.getattr(d, 'log_prob'), [x]), Arr(V.oarr(want) if isinstance(want, T.Term) else want, 'float32'), v, tol=1e-8)
        # density of one's own sample, and the accessors do not change
        sm = ctx.I.call(ctx.I.getattr(d, 'sample'), [(2,), k])
        want = density(sm.a, m.a, s.a, len(pshape))
        ctx.eq('density', lab + ': own samples', ctx.I.call(ctx.I.getattr(d, 'log_prob'), [sm]), Arr(V.oarr(want) if isinstance(want, T.Term) else want, 'float32'), v, tol=1e-8)
        ctx.eq('accessor', lab + ': params after use', list(ctx.I.iterate(ctx.I.getattr(d, 'params'))), [m, s], v)
        far = ctx.arr('f', ss, ('set', (1e3, -1e3, 150.0, -150.0)))
        d = ctx.call(nm, m, far)
        ctx.eq('accessor', lab + ': extreme log scale as given', ctx.I.getattr(d, 'log_scale'), far, v, ieee=True)
        ctx.eq('accessor', lab + ': params with an extreme log scale', list(ctx.I.iterate(ctx.I.getattr(d, 'params'))), [m, far], v, ieee=True)
        big = ctx.arr('b', ms, ('set', (1e8, -1e8, 0.0)))
        want = density(np.broadcast_to(np.array(T.ZERO, dtype=object), pshape), big.a, s.a, len(pshape))
        ctx.eq('density', lab + ': far from the mean', ctx.I.call(ctx.I.getattr(ctx.call(nm, big, s), 'log_prob'), [Arr(np.broadcast_to(np.array(T.ZERO, dtype=object), pshape).copy() if pshape else V.oarr(T.ZERO), 'float32')]), Arr(V.oarr(want) if isinstance(want, T.Term) else want, 'float32'), v, tol=1e-8)
  finally: ctx.I.jit = False


def mixed_precision(ctx):
  """Draws are made in float32 whatever the parameters' type."""
  k = M.key_arr(T.var('key', 'key'), True)
  for dm, ds in (('bfloat16', 'bfloat16'), ('float16', 'float16'), ('bfloat16', 'float32'), ('float32', 'float16')):
    m, s = ctx.arr('m', (2,), 'real', dm), ctx.arr('s', (2,), 'real', ds)
    d = ctx.call('multi_normal', m, s)
    r = V.as_arr(ctx.I.call(ctx.I.getattr(d, 'sample'), [(3,)], {'seed': k}))
    ctx.true('sample', 'draws for a %s mean and %s log scale are float32' % (dm, ds), r.dtype == 'float32', 'the draws are %s' % r.dtype)
    ctx.eq('accessor', '%s mean, %s log scale as given' % (dm, ds), list(ctx.I.iterate(ctx.I.getattr(d, 'params'))), [m, s], dtypes=True)


def tiling(ctx, jit):
  ctx.I.jit = jit
  try:
    for shp in ((1,), (3,), (2, 2), (2, 3), (3, 1), (2, 1, 3), (1, 2, 3, 2)):
      for dt in ('float32', 'bfloat16', 'int32'):
        a = ctx.arr('a', shp, 'real' if dt != 'int32' else 'int', dt)
        r = ctx.call('_src.utils.tile_second_to_last_dim', a)
        want = np.empty(shp + shp[-1:], dtype=object)
        for i in np.ndindex(*want.shape): want[i] = a.a[i[:-1]]
        ctx.eq('tile', '%s %s%s' % (shp, dt, ' compiled' if jit else ''), r, Arr(want, dt), ctx.val(32), dtypes=True)
    for n in (1, 2, 3):
      for d in (1, 2, 3, 4):
        for dt in ('float32', 'float16'):
          a, x = ctx.arr('a', (n, d, d), 'full', dt), ctx.arr('x', (n, d), 'full', dt)
          want = a.a.copy()
          for i in range(n):
            for q in range(d): want[i, q, q] = x.a[i, q]
          lab = '%dx%dx%d %s%s' % (n, d, d, dt, ' compiled' if jit else '')
          ctx.eq('diagonal', lab, ctx.call('_src.utils.set_diags', a, x), Arr(want, dt), ctx.val(32), dtypes=True, ieee=True)
          ctx.eq('diagonal', lab + ', keywords', ctx.call('_src.utils.set_diags', a=a, new_diags=x), Arr(want, dt), ctx.val(32), dtypes=True, ieee=True)
    for bad in ((2, 2, 3), (1, 3, 2)): ctx.expect_raise('diagonal', 'non-square %s is rejected' % (bad,), lambda: ctx.call('_src.utils.set_diags', ctx.arr('a', bad), ctx.arr('x', bad[:2])), None)
  finally: ctx.I.jit = False


CANON = {'float64': 'float32', 'float32': 'float32', 'float16': 'float16', 'bfloat16': 'bfloat16', 'int64': 'int32', 'int32': 'int32', 'int8': 'int8', 'uint64': 'uint32', 'uint8': 'uint8', 'bool': 'bool'}


def dtypes(ctx):
  f = '_src.utils.canonicalize_dtype'
  ctx.true('dtype', 'canonicalising None', ctx.call(f, None) is None, 'None is changed')
  for a, b in CANON.items():
    env = ctx.scripted('import jax.numpy as jnp\nimport numpy as np\n')
    for how, x in (('name', a), ('jnp type', ctx.I.getattr(env['jnp'], a if a != 'bool' else 'bool_')), ('np dtype', None if a == 'bfloat16' else ctx.I.call(ctx.I.getattr(env['np'], 'dtype'), [a]))):
      if x is None: continue
      r = ctx.guard('canonicalize %s (%s)' % (a, how), ctx.call, f, x)
      ctx.true('dtype', 'canonical %s (%s)' % (a, how), r is not None and V.dtype_name(r) == b, 'gives %r' % (r,))
  c = '_src.utils.cast_tree'
  for tn, t in (('nested', TREE), ('mixed', MIXED), ('bare', L(2)), ('none', {'a': None, 'b': L(2)}), ('empty', {}), ('ranks', [L(), L(1), (L(2, 1, 2),)])):
    x = ctx.tree('t', t, 'full')
    r = ctx.call(c, x, None)
    ctx.eq('cast', tn + ': None changes nothing', r, x, ctx.val(16), dtypes=True, ieee=True)
    for d in ('float32', 'bfloat16', 'float16', 'int32'):
      y = ctx.tree('t', t, 'real' if d != 'int32' else 'int')
      for kw in (False, True):
        r = ctx.call(c, tree=y, dtype=d) if kw else ctx.call(c, y, d)
        ctx.eq('cast', '%s to %s%s' % (tn, d, ', keywords' if kw else ''), r, V.tree_map(lambda l: Arr(l.a, d, traced=True), y), ctx.val(16), dtypes=True)
    z = ctx.tree('t', t, 'int', dtype='int32')
    ctx.eq('cast', tn + ' of integers to float', ctx.call(c, z, 'float32'), V.tree_map(lambda l: Arr(l.a, 'float32', traced=True), z), ctx.val(16), dtypes=True)


def check(ctx):
  ctx.section('mixed precision', mixed_precision)
  for ms, ss in PSHAPES:
    for jit in (False, True): ctx.section('gaussian %s %s %s' % (ms, ss, jit), gaussian, ms, ss, jit)
  for jit in (False, True): ctx.section('arrays %s' % jit, tiling, jit)
  ctx.section('dtypes', dtypes)
