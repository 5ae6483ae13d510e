"""global_norm, power_iteration and matrix_inverse_pth_root are interpreted on symbolic trees and
symbolic symmetric positive definite matrices; their loops are unrolled into guarded value graphs and
compared with the documented iterations (power iteration with a Rayleigh quotient, Higham 7.18 coupled
Newton), and the reported error with the algebraic residual of the returned matrix."""
import numpy as np

from .. import terms as T, values as V
from ..spec import L, MIXED, TREE, total, WIDE
from ..values import Arr

RULE = """value-graph equality with the documented iteration for each iteration bound; static loop bound <= num_iters; no effects; H^p (A + ridge I) = M in exact arithmetic"""
FLOOR = 600


def matrix(ctx, n, dtype='float32', spread=(1.0, 3.0), off=0.4, name='A'):
  a = np.empty((n, n), dtype=object)
  for i in range(n):
    for j in range(i, n):
      t = T.var('%s%d%d' % (name, i, j), ('range',) + (spread if i == j else (-off, off)))
      a[i, j] = a[j, i] = t
  return Arr(a, dtype, traced=True)


def mm(a, b):
  out = np.empty((a.shape[0],) + b.shape[1:], dtype=object)
  for i in np.ndindex(*out.shape):
    r = T.ZERO
    for k in range(a.shape[1]): r = T.add(r, T.mul(a[i[0], k], b[(k,) + i[1:]]))
    out[i] = r
  return out


def norm(v): return T.unary('sqrt', total(v * v))
def sc(a, t): return V.vec(lambda x: T.mul(x, t), a)
def eye(n): return np.array([[T.ONE if i == j else T.ZERO for j in range(n)] for i in range(n)], dtype=object).reshape(n, n)
def sel(c, a, b): return V.vec(lambda x, y: T.ite(c, x, y), a, b)


def maxabs(a):
  r = None
  for t in a.reshape(-1):
    u = T.unary('abs', t)
    r = u if r is None else T.maximum(r, u)
  return r


def ref_power(A, w, n, tol):
  """n bounded steps of power iteration from direction w; returns the unit vector and the quotient."""
  s, run = T.ZERO, T.TRUE
  v = w
  for _ in range(n):
    x = sc(v, T.div(T.ONE, norm(v)))
    y = mm(A, x)
    q = total(x * y)
    go = T.gt(T.unary('abs', T.sub(q, s)), tol)
    v, s, run = sel(run, y, v), T.ite(run, q, s), T.land(run, go)
  return sc(v, T.div(T.ONE, norm(v))), s


def power(ctx, n, jit, dtype, indefinite=False):
  v = ctx.val(48)
  A = matrix(ctx, n, dtype, (-3.0, 3.0), 2.0) if indefinite else matrix(ctx, n, dtype)
  lab = '%dx%d %s%s%s' % (n, n, dtype, ' indefinite' if indefinite else '', ' compiled' if jit else '')
  ctx.I.jit = jit
  try:
    v0, s0 = ctx.call('power_iteration', A, num_iters=0)
    w = V.as_arr(v0).a
    ctx.eq('power', lab + ', no iterations: eigenvalue is the initial zero', s0, Arr(V.oarr(T.ZERO), dtype), v, dtypes=True)
    ctx.eq('power', lab + ', no iterations: unit vector', Arr(V.oarr(norm(w)), dtype), Arr(V.oarr(T.ONE), dtype), v)
    ctx.true('power', lab + ': start vector does not depend on the matrix', not any(t.op == 'v' and str(t.val[0]).startswith('A') for t in T.walk(list(w))), 'it does')
    for k in (1, 2, 3, 4, 7) if n > 1 else (1, 2, 3):
      for tol in (0.0, 1e-6, 0.3, 5.0, ctx.h('tol', ('range', 0.0, 1.0))):
        tt = tol.item() if isinstance(tol, Arr) else T.const(tol)
        r = ctx.call('power_iteration', A, k, tol)
        e = ref_power(A.a, w, k, tt)
        ctx.true('shape', '%s, %d iterations: shapes' % (lab, k), V.as_arr(r[0]).shape == (n,) and V.as_arr(r[1]).shape == (), 'shapes %s %s' % (V.as_arr(r[0]).shape, V.as_arr(r[1]).shape))
        ctx.eq('power', '%s, %d iterations, tolerance %s: eigenvector' % (lab, k, tol if not isinstance(tol, Arr) else 'symbolic'), r[0], Arr(e[0], dtype), v, dtypes=True)
        ctx.eq('power', '%s, %d iterations, tolerance %s: eigenvalue' % (lab, k, tol if not isinstance(tol, Arr) else 'symbolic'), r[1], Arr(V.oarr(e[1]), dtype), v, dtypes=True)
        r2 = ctx.call('power_iteration', matrix=A, num_iters=k, error_tolerance=tol)
        ctx.true('pure', '%s, %d iterations: same result again' % (lab, k), V.all_terms(r) == V.all_terms(r2), 'a second call computes something else')
    if indefinite: return
    ctx.I.scratch['while_loops'] = []
    r = ctx.call('power_iteration', A)
    e = ref_power(A.a, w, 100, T.const(1e-6))
    ctx.eq('power', lab + ', defaults: eigenvector', r[0], Arr(e[0], dtype), ctx.val(16), tol=1e-7)
    ctx.eq('power', lab + ', defaults: eigenvalue', r[1], Arr(V.oarr(e[1]), dtype), ctx.val(16), tol=1e-7)
    for loc, c in ctx.I.scratch['while_loops']: ctx.true('bound', '%s: defaults iterate at most 100 times' % lab, c <= 100, '%d iterations possible at %s' % (c, loc))
  finally:
    ctx.I.jit = False
  ctx.no_events('pure', lab + ': no effects', ('effect', 'mutation', 'global-write'))


def mat_pow(m, p):
  r = eye(m.shape[0])
  for _ in range(p): r = mm(r, m)
  return r


def ref_root(A, p, n, ridge, tol):
  """Coupled Newton iteration (Higham, eq. 7.18); returns H and the residual max |M - I|."""
  size = A.shape[0]
  al = T.const(-1.0 / p)
  B = V.vec(lambda x, i: T.add(x, T.mul(ridge, i)), A, eye(size))
  if size == 1: return V.vec(lambda t: T.power(t, al), B), T.ZERO, B
  z = T.div(T.const(float(1 + p)), T.mul(T.const(2.0), norm(B)))
  M = sc(B, z)
  H = old = sc(eye(size), T.power(z, T.const(1.0 / p)))
  err = maxabs(M - eye(size))
  ok = T.TRUE
  for _ in range(n):
    go = T.land(T.gt(err, tol), ok)
    X = V.vec(lambda i, m: T.add(T.mul(T.sub(T.ONE, al), i), T.mul(al, m)), eye(size), M)
    M2 = mm(mat_pow(X, p), M)
    H2 = mm(H, X)
    e2 = maxabs(M2 - eye(size))
    o2 = T.lt(e2, T.mul(err, T.const(1.2)))
    old, H, M, err, ok = sel(go, H, old), sel(go, H2, H), sel(go, M2, M), T.ite(go, e2, err), T.ite(go, o2, ok)
  return sel(ok, H, old), err, B


def root(ctx, n, p, k, jit, dtype, wide):
  v = ctx.val(32)
  A = matrix(ctx, n, dtype, *{False: ((1.0, 3.0), 0.4), True: ((0.05, 4.0), 0.03), 'indefinite': ((-2.0, 3.0), 2.0)}[wide])
  lab = '%dx%d %s p=%s, %d iterations%s%s' % (n, n, dtype, p, k, ', indefinite' if wide == 'indefinite' else ', ill-conditioned' if wide else '', ' compiled' if jit else '')
  ctx.I.jit = jit
  try:
    _, ev = ctx.call('power_iteration', A)
    top = T.maximum(V.as_arr(ev).item(), T.const(1e-16))
    for eps, tol in ((1e-6, 1e-6), (ctx.h('eps', ('range', 0.0, 0.5)), 0.0), (0.25, ctx.h('tol', ('range', 0.0, 1.0)))):
      en = 'symbolic' if isinstance(eps, Arr) else eps
      tn = 'symbolic' if isinstance(tol, Arr) else tol
      r, err = ctx.call('matrix_inverse_pth_root', A, p, num_iters=k, ridge_epsilon=eps, error_tolerance=tol)
      ridge = T.mul(eps.item() if isinstance(eps, Arr) else T.const(eps), top)
      H, e, B = ref_root(A.a, p, k, ridge, tol.item() if isinstance(tol, Arr) else T.const(tol))
      l2 = '%s, ridge %s, tolerance %s' % (lab, en, tn)
      ctx.true('shape', l2, V.as_arr(r).shape == A.shape and V.as_arr(err).shape == (), 'shapes %s %s' % (V.as_arr(r).shape, V.as_arr(err).shape))
      if n > 1 or dtype == 'float32': ctx.true('dtype', l2, V.as_arr(r).dtype == dtype, 'dtype is %s' % V.as_arr(r).dtype)
      ctx.eq('root', l2 + ': root', r, Arr(H, dtype), v, tol=1e-7)
      ctx.eq('root', l2 + ': residual', err, Arr(V.oarr(e), 'float32'), v, tol=1e-7)
      if not wide and n > 1:
        R = maxabs(mm(mat_pow(V.as_arr(r).a, p), B) - eye(n))
        (a, b, d) = T.evaluate([R, V.as_arr(err).item(), T.const(0.0)], v)
        dec = np.asarray(b) <= 1.0          # rows whose iteration has not diverged
        bad = [i for i in np.nonzero(dec)[0] if not abs(a[i] - b[i]) <= 1e-6 + 1e-6 * abs(b[i])]
        ctx.true('algebra', l2 + ': reported error is the residual |H^p (A + ridge I) - I|', not bad, 'residual %s, reported %s' % ([a[i] for i in bad[:2]], [b[i] for i in bad[:2]]))
  finally:
    ctx.I.jit = False
  ctx.no_events('pure', lab + ': no effects', ('effect', 'mutation', 'global-write'))


def root_bounds(ctx, n, p):
  """The default bound is 100 iterations, the loop is bounded by num_iters and converges for every p."""
  A = matrix(ctx, n, spread=(1.0, 3.0), off=0.4)
  for k in (0, 1, 5, 12):
    ctx.I.scratch['while_loops'] = []
    ctx.call('matrix_inverse_pth_root', A, p, num_iters=k, error_tolerance=1e-6)
    cs = [c for _, c in ctx.I.scratch['while_loops']]
    # the power iteration (<=100), the squarings (<= bit length of p), and the iteration itself
    over = [c for c in cs if c not in (100, p.bit_length()) and c > k]
    ctx.true('bound', '%dx%d p=%d num_iters=%d: at most num_iters iterations' % (n, n, p, k), not over, 'loops of %s iterations are possible' % over)
  r, err = ctx.call('matrix_inverse_pth_root', A, p, num_iters=14, ridge_epsilon=0.0)
  v = ctx.val(24)
  R = maxabs(mm(mat_pow(V.as_arr(r).a, p), A.a) - eye(n))
  ctx.holds('algebra', '%dx%d p=%d: the returned matrix is the inverse p-th root after 14 iterations' % (n, n, p), T.lt(R, T.const(1e-4)), v)
  ctx.holds('algebra', '%dx%d p=%d: the reported error is below the tolerance' % (n, n, p), T.lt(V.as_arr(err).item(), T.const(1e-4)), v)


TREES = {'wide': WIDE, 'nested': TREE, 'mixed': MIXED, 'bare': L(3), 'scalar': L(), 'none': {'a': None, 'b': L(2)}, 'ranks': [L(), L(1), L(2, 1, 2), {'x': L(1, 1, 1, 2)}],
         'empty': {}, 'empty leaf': {'a': L(0), 'b': L(2)}, 'half': L(2, dtype='float16'), 'integers': {'a': L(2, dtype='int32'), 'b': L(2)}, 'double': (L(2, dtype='float32'), (L(2), (L(1),)))}


def gnorm(ctx, jit):
  for nm, t in TREES.items():
    for dom in ('real', 'full', ('set', (0.0,))):
      if nm == 'integers' and dom != 'real': continue
      x = ctx.tree('g', t, 'int' if nm == 'integers' else dom)
      ctx.I.jit = jit
      try: r = ctx.guard('global_norm ' + nm, ctx.call, 'global_norm', x)
      finally: ctx.I.jit = False
      if r is None: continue
      ts = V.all_terms(x)
      ctx.true('shape', 'global_norm %s, %s' % (nm, dom), V.as_arr(r).shape == (), 'not a scalar')
      ctx.eq('global_norm', '%s, entries %s%s' % (nm, dom if isinstance(dom, str) else 'zero', ' compiled' if jit else ''), r, Arr(V.oarr(T.unary('sqrt', total([V.oarr(T.mul(a, a)) for a in ts]) if ts else T.ZERO)), V.as_arr(r).dtype), ctx.val(96), ieee=True)


def check(ctx):
  TREES.update(ctx.directed('linear_algebra.py'))
  for jit in (False, True): ctx.section('global_norm %s' % jit, gnorm, jit)
  for n in (1, 2, 3) + ((4, 5) if ctx.thorough else ()):
    ctx.section('power %d' % n, power, n, False, 'float32')
    ctx.section('power %d indefinite' % n, power, n, False, 'float32', True)
    if n == 2 or ctx.thorough: ctx.section('power %d compiled' % n, power, n, True, 'float32')
  if ctx.thorough: ctx.section('power half', power, 2, False, 'float16')
  ps = (1, 2, 3, 4, 5, 6, 7, 8) + ((9, 10, 12, 15, 16) if ctx.thorough else ())
  for p in ps:
    ctx.section('root 1 p%d' % p, root, 1, p, 2, False, 'float32', False)
    for k in (0, 1, 2) + ((3, 4) if ctx.thorough else ()):
      ctx.section('root 2 p%d k%d' % (p, k), root, 2, p, k, False, 'float32', False)
    if p in (2, 3, 4) or ctx.thorough:
      ctx.section('root 2 p%d compiled' % p, root, 2, p, 2, True, 'float32', False)
      ctx.section('root 2 p%d wide' % p, root, 2, p, 3, False, 'float32', True)
      for k in (1, 2, 3): ctx.section('root 2 p%d indefinite' % p, root, 2, p, k, False, 'float32', 'indefinite')
      ctx.section('root 3 p%d' % p, root, 3, p, 1, False, 'float32', False)
    ctx.section('root bounds p%d' % p, root_bounds, 2, p)
  ctx.section('root half', root, 2, 3, 1, False, 'bfloat16', False)
