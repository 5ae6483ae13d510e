"""The estimators are interpreted with uninterpreted functions and uninterpreted distributions (sample
and log-density are uninterpreted in every parameter and key); each returned Jacobian row is compared
with the formal derivative the documented estimator prescribes for that sample."""
import math

import numpy as np

from .. import models as M, terms as T, values as V
from ..spec import vf
from ..values import Arr

RULE = """value-graph equality of every Jacobian row with the formal score-function, pathwise or measure-valued estimator"""
FLOOR = 900

DIST = '''
class Dist:
  def __init__(self, *params): self.params = params
  def sample(self, shape, seed): return sample_body(self.params, shape, seed)
  def log_prob(self, x): return logp_body(self.params, x)
def builder(*params): return Dist(*params)
'''


def key(): return M.key_arr(T.var('key', 'key'), True)


class Rig:
  """Uninterpreted function and distribution over events of one shape."""

  def __init__(self, ctx, event, dtype='float32'):
    self.ctx, self.event, self.samples, self.applied = ctx, event, [], []
    self.env = ctx.scripted(DIST, sample_body=ctx.prim(self.sample, 'sample'), logp_body=ctx.prim(self.logp, 'logp'))
    self.builder = self.env['builder']
    self.function = ctx.prim(self.f, 'function')
    self.dtype = dtype

  def f(self, x):
    x = V.as_arr(x)
    self.applied.append(x)
    if x.shape != self.event: raise V.AbsRaise(V.ExcVal(ValueError, ('the function takes one sample of shape %s, got %s' % (self.event, x.shape),)))
    return Arr(V.oarr(self.F(x.terms())), 'float32', traced=True)

  @staticmethod
  def F(ts): return T.app('F', list(ts))

  def draw(self, params, n, k):
    a = np.empty((n,) + self.event, dtype=object)
    for i, idx in enumerate(np.ndindex(*a.shape)): a[idx] = T.app('S', [T.const(i), T.const(n)] + params + k)
    return a

  def sample(self, params, shape, seed):
    M.check_key(self.ctx.I, seed)
    shape = tuple(self.ctx.I.as_index(i) for i in self.ctx.I.iterate(shape))
    self.samples.append((shape, seed))
    return Arr(self.draw([t for p in params for t in V.as_arr(p).terms()], shape[0], [M.key_term(seed)]), 'float32', traced=True)

  def logp(self, params, x): return Arr(V.oarr(T.app('LP', [t for p in params for t in V.as_arr(p).terms()] + V.as_arr(x).terms())), 'float32', traced=True)


def rows(params, per):
  """Jacobian tree: per(n, var) -> term for n samples; list of arrays (N,)+param.shape."""
  n, fn = per
  out = []
  for p in params:
    a = np.empty((n,) + p.shape, dtype=object)
    for i in range(n):
      for idx in np.ndindex(*p.shape): a[(i,) + idx] = fn(i, p.a[idx])
    out.append(Arr(a, 'float32', traced=True))
  return out


def score_ref(params, samples, F, LP):
  n = samples.shape[0]
  samples = samples.reshape(n, -1)

  def row(i, v):
    ys = [T.var('y%d' % j, 'real') for j in range(samples[i].size)]
    d = T.diff(LP(ys), v)
    return T.mul(F(samples[i].reshape(-1)), T.subst([d], dict(zip(ys, samples[i].reshape(-1))))[0])
  return rows(params, (n, row))


def path_ref(params, samples, F):
  samples = samples.reshape(samples.shape[0], -1)
  return rows(params, (samples.shape[0], lambda i, v: T.diff(F(samples[i].reshape(-1)), v)))


PARAMS = {'pair': ((2,), (2,)), 'one': ((3,),), 'scalar and matrix': ((), (2, 2)), 'three': ((1,), (2,), ()), 'singletons': ((1,), (1,))}
EVENTS = ((2,), (), (1,), (2, 2))


def generic(ctx, pname, event, n, container, how, jit):
  rig = Rig(ctx, event)
  ps = [ctx.arr('p%d' % i, s) for i, s in enumerate(PARAMS[pname])]
  params = container(ps)
  k = key()
  pt = [t for p in ps for t in p.terms()]
  S = rig.draw(pt, n, [M.key_term(k)])
  LP = lambda ys: T.app('LP', pt + list(ys))
  v = ctx.val(48)
  for nm, ref in (('score_function_jacobians', score_ref(ps, S, rig.F, LP)), ('pathwise_jacobians', path_ref(ps, S, rig.F))):
    lab = '%s, %s parameters in a %s, event %s, %d samples%s%s' % (nm, pname, container.__name__, event, n, '' if how == 'positional' else ', ' + how, ' compiled' if jit else '')
    del rig.samples[:], rig.applied[:]
    ctx.I.jit = jit
    try:
      if how == 'positional': r = ctx.guard(lab, ctx.call, nm, rig.function, params, rig.builder, k, n)
      else: r = ctx.guard(lab, ctx.call, nm, function=rig.function, params=params, dist_builder=rig.builder, rng=k, num_samples=n)
    finally: ctx.I.jit = False
    if r is None: continue
    ctx.eq('estimator', lab, r, container(ref), v, dtypes=True)
    for shape, seed in rig.samples:
      ctx.true('sampling', lab + ': asks for the given number of samples', shape == (n,), 'samples of shape %s are drawn' % (shape,))
      ctx.true('sampling', lab + ': with the given key', V.all_terms(seed) == V.all_terms(k), 'another key is used')
    ctx.true('sampling', lab + ': draws', bool(rig.samples), 'no samples are drawn')


def gaussian(ctx, d, n, jit):
  """The library's own Gaussian, where every term is closed form."""
  k = key()
  m, ls = ctx.arr('m', (d,)), ctx.arr('ls', (d,))
  F = lambda ts: T.app('F', list(ts))
  f = ctx.prim(lambda x: Arr(V.oarr(F(V.as_arr(x).terms())), 'float32', traced=True), 'function')
  z = [[T.app('rng:normal:%dx%d:%d' % (n, d, i * d + j), [M.key_term(k)]) for j in range(d)] for i in range(n)]
  S = np.empty((n, d), dtype=object)
  for i in range(n):
    for j in range(d): S[i, j] = T.add(m.a[j], T.mul(T.unary('exp', ls.a[j]), z[i][j]))

  def LP(ys):
    r = T.ZERO
    for j, y in enumerate(ys):
      e = T.mul(T.sub(y, m.a[j]), T.unary('exp', T.neg(ls.a[j])))
      r = T.sub(r, T.add(T.add(T.const(0.5 * math.log(2 * math.pi)), ls.a[j]), T.mul(T.const(0.5), T.mul(e, e))))
    return r
  v = ctx.val(48)
  ctx.I.jit = jit
  try:
    for c in (list, tuple):
      lab = 'Gaussian, %d dimensions, %d samples, %s%s' % (d, n, c.__name__, ' compiled' if jit else '')
      ctx.eq('gaussian', 'score function, ' + lab, ctx.call('score_function_jacobians', f, c([m, ls]), ctx.f('multi_normal'), k, n), c(score_ref([m, ls], S, F, LP)), v)
      ctx.eq('gaussian', 'pathwise, ' + lab, ctx.call('pathwise_jacobians', f, c([m, ls]), ctx.f('multi_normal'), k, n), c(path_ref([m, ls], S, F)), v)
      # measure valued
      pk, nk = [T.app('rng:split:2:%d' % i, [M.key_term(k)]) for i in (0, 1)]
      raw = lambda name, kk: np.array([[T.app('rng:%s:%dx%d:%d' % (name, n, d, i * d + j), [kk]) for j in range(d)] for i in range(n)], dtype=object).reshape(n, d)
      wei = lambda u: T.mul(T.const(math.sqrt(2.)), T.unary('sqrt', T.neg(T.unary('log', T.sub(T.ONE, T.unary('sigmoid', u))))))
      for coupling in (True, False, None):
        W = vf(wei, raw('weibull_min', pk))
        Wn = W if coupling in (True, None) else vf(wei, raw('weibull_min', nk))
        X = raw('double_sided_maxwell', pk)
        Xn = vf(lambda u, x: T.mul(T.unary('sigmoid', u), x), raw('uniform', nk), X) if coupling in (True, None) else raw('normal', nk)
        jm, js = np.empty((n, d), dtype=object), np.empty((n, d), dtype=object)
        for i in range(n):
          for j in range(d):
            s = T.unary('exp', ls.a[j])

            def at(val):
              y = list(S[i])
              y[j] = T.add(m.a[j], T.mul(s, val))
              return F(y)
            jm[i, j] = T.div(T.sub(at(W[i, j]), at(T.neg(Wn[i, j]))), T.mul(T.const(math.sqrt(2 * math.pi)), s))
            js[i, j] = T.sub(at(X[i, j]), at(Xn[i, j]))        # 1/c = 1/s, times ds/dlog s = s
        for kw in (False, True):
          a = (f, c([m, ls]), ctx.f('multi_normal'), k, n)
          kws = {} if coupling is None else {'coupling': coupling}
          r = ctx.call('measure_valued_jacobians', *a, **kws) if not kw else ctx.call('measure_valued_jacobians', **dict(zip(('function', 'params', 'dist_builder', 'rng', 'num_samples'), a)), **kws)
          l2 = '%s, coupling %s%s' % (lab, 'default' if coupling is None else coupling, ', keywords' if kw else '')
          r = ctx.I.iterate(r)
          ctx.true('measure-valued', l2 + ': one Jacobian per parameter', len(r) == 2, '%d Jacobians' % len(r))
          ctx.eq('measure-valued', l2 + ': mean', r[0], Arr(jm, 'float32'), v)
          ctx.eq('measure-valued', l2 + ': log scale', r[1], Arr(js, 'float32'), v)
  finally: ctx.I.jit = False


def rejected(ctx):
  rig = Rig(ctx, (2,))
  p = [ctx.arr('m', (2,)), ctx.arr('s', (2,))]
  for lab, b in (('another builder', rig.builder), ('the Gaussian class itself', ctx.f('_src.utils.MultiNormalDiagFromLogScale')), ('a wrapper of the builder', ctx.prim(lambda *a: ctx.call('multi_normal', *a), 'wrap'))):
    ctx.expect_raise('measure-valued', lab + ' is rejected', lambda: ctx.call('measure_valued_jacobians', rig.function, p, b, key(), 2), (ValueError,))


def check(ctx):
  for pname in PARAMS:
    for ev in EVENTS:
      for n in (1, 2, 3) + ((5,) if ctx.thorough else ()):
        for c in (tuple, list):
          ctx.section('%s %s %d %s' % (pname, ev, n, c), generic, pname, ev, n, c, 'positional', False)
      ctx.section('%s %s keywords' % (pname, ev), generic, pname, ev, 2, tuple, 'keywords', False)
      ctx.section('%s %s compiled' % (pname, ev), generic, pname, ev, 2, tuple, 'positional', True)
  for d in (1, 2, 3) + ((4,) if ctx.thorough else ()):
    for n in (1, 2, 3) + ((4, 5) if ctx.thorough else ()): ctx.section('gaussian %d %d' % (d, n), gaussian, d, n, False)
    ctx.section('gaussian %d compiled' % d, gaussian, d, 2, True)
  for n in ctx.sizes('stochastic_gradient_estimators.py', 'utils.py'):      # sample counts the code itself distinguishes
    ctx.section('singletons (1,) %d' % n, generic, 'singletons', (1,), n, tuple, 'positional', False)
    ctx.section('gaussian 1 %d' % n, gaussian, 1, n, False)
  for d in ctx.sizes('stochastic_gradient_estimators.py', 'utils.py', hi=100):
    ctx.section('gaussian %d 1' % d, gaussian, d, 1, False)
  ctx.section('rejected', rejected)
