"""control_variates_jacobians and the coefficient estimator are interpreted with uninterpreted functions,
control variates, distributions and gradient estimators (and with the library's own), and their results
compared with the documented identity; the delta method with the formal second-order expansion; the
moving average with its closed form over arbitrary states and over histories from the initial state."""
import numpy as np

from .. import models as M, terms as T, values as V
from ..spec import total
from ..values import Arr
from .C27 import DIST, key, path_ref, score_ref

RULE = """value-graph equality with estimator(f) - c*estimator(cv) - c*E[d cv] + c*d E[cv], the second-order expansion and its expectation, the moving-average recursion, and the regression coefficients"""
FLOOR = 1200


def mean(ts): return T.div(total(np.array(list(ts), dtype=object)), T.const(float(len(ts))))


class Rig:
  """Uninterpreted function, control variate with state, distribution and estimator."""

  def __init__(self, ctx, d, nparams, cv='opaque'):
    self.ctx, self.d = ctx, d
    self.ps = [ctx.arr('p%d' % i, (d,)) for i in range(nparams)]
    self.pt = [t for p in self.ps for t in p.terms()]
    P = ctx.prim
    self.env = ctx.scripted(DIST, sample_body=P(self.sample), logp_body=P(self.logp))
    self.builder = self.env['builder']
    self.function = P(lambda x: self.sc(self.F(V.as_arr(x).terms())), 'function')
    self.est = P(self.estimator, 'estimator')
    self.updates, self.est_calls = [], []
    self.cv = P(self.control_variate, 'control_variate')
    self.seen = []

  @staticmethod
  def sc(t): return Arr(V.oarr(t), 'float32', traced=True)

  @staticmethod
  def F(ts): return T.app('F', list(ts))

  def draw(self, params, n, k):
    a = np.empty((n, self.d), dtype=object)
    for i, idx in enumerate(np.ndindex(*a.shape)): a[idx] = T.app('S', [T.const(i), T.const(n)] + params + [k])
    return a

  def sample(self, params, shape, seed):
    n = self.ctx.I.as_index(self.ctx.I.iterate(shape)[0])
    return Arr(self.draw([t for p in params for t in V.as_arr(p).terms()], n, M.key_term(seed)), 'float32', traced=True)

  def LP(self, params, ys): return T.app('LP', list(params) + list(ys))
  def logp(self, params, x): return self.sc(self.LP([t for p in params for t in V.as_arr(p).terms()], V.as_arr(x).terms()))

  # control variate: value, expectation, state update
  def H(self, params, x, s): return T.app('H', list(params) + list(x) + list(s))
  def E(self, params, s): return T.app('E', list(params) + list(s))
  def ST(self, params, samples, s): return T.app('ST', list(params) + list(samples) + list(s))

  def control_variate(self, function):
    self.seen.append(function)
    flat = lambda p: [t for q in p for t in V.as_arr(q).terms()]

    def update(p, samples, s):
      self.updates.append(samples)
      if s is None: return None
      return {'s': self.sc(self.ST(flat(p), V.as_arr(samples).terms(), V.all_terms(s)))}
    P = self.ctx.prim
    return (P(lambda p, x, s: self.sc(self.H(flat(p), V.as_arr(x).terms(), V.all_terms(s))), 'cv'),
            P(lambda p, s: self.sc(self.E(flat(p), V.all_terms(s))), 'expected'), P(update, 'update'))

  # an arbitrary estimator: depends on the function only through its values
  def estimator(self, function, params, dist_builder, rng, num_samples):
    n = self.ctx.I.as_index(num_samples)
    ys = [T.var('probe%d' % j, 'real') for j in range(self.d)]
    fy = V.as_arr(self.ctx.I.call(function, [Arr(V.oarr(ys), 'float32', traced=True)])).item()
    self.est_calls.append((fy, rng, n))
    return self.est_ref(fy, [t for p in params for t in V.as_arr(p).terms()], M.key_term(rng), n, len(params))

  def est_ref(self, fy, pt, k, n, m):
    out = []
    for i in range(m):
      a = np.empty((n, self.d), dtype=object)
      for j, idx in enumerate(np.ndindex(*a.shape)): a[idx] = T.app('EST%d' % i, [fy, T.const(j), T.const(n), k] + pt)
      out.append(Arr(a, 'float32', traced=True))
    return out

  def probe(self): return [T.var('probe%d' % j, 'real') for j in range(self.d)]


def state_of(ctx, kind):
  if kind == 'none': return None
  if kind == 'array': return ctx.arr('s0', ())
  return {'a': ctx.arr('s0', ()), 'b': (ctx.arr('s1', (2,)),)}


def estimate(rig, est, fn, pt, k, n):
  """Reference estimator rows for a term-level function of a sample."""
  if est == 'opaque': return [r.a for r in rig.est_ref(fn(rig.probe()), pt, k, n, len(rig.ps))]
  S = rig.draw(pt, n, k)
  if est == 'score': return [r.a for r in score_ref(rig.ps, S, lambda y: fn(list(y)), lambda ys: rig.LP(pt, ys))]
  return [r.a for r in path_ref_fixed(rig, S, fn)]


def path_ref_fixed(rig, S, fn):
  """Pathwise rows where fn must not be differentiated through its own parameters."""
  out = []
  for p in rig.ps:
    a = np.empty((S.shape[0],) + p.shape, dtype=object)
    for i in range(S.shape[0]):
      ys = [T.var('y%d' % j, 'real') for j in range(S.shape[1])]
      val = fn(ys)
      for idx in np.ndindex(*p.shape):
        r = T.ZERO
        for j, y in enumerate(ys): r = T.add(r, T.mul(T.subst([T.diff(val, y)], dict(zip(ys, S[i])))[0], T.diff(S[i][j], p.a[idx])))
        a[(i,) + idx] = r
    out.append(Arr(a, 'float32'))
  return out


def coefficient(fj, cj, eps):
  """sum cov / (sum var + eps) over the columns."""
  n = fj.shape[0]
  cov, var = T.ZERO, T.ZERO
  for j in range(fj.shape[1]):
    mf, mc = mean(fj[:, j]), mean(cj[:, j])
    cov = T.add(cov, mean([T.mul(T.sub(fj[i, j], mf), T.sub(cj[i, j], mc)) for i in range(n)]))
    var = T.add(var, mean([T.mul(T.sub(cj[i, j], mc), T.sub(cj[i, j], mc)) for i in range(n)]))
  return T.div(cov, T.add(var, eps))


def identity(ctx, d, m, n, est, state, coeffs, jit):
  rig = Rig(ctx, d, m)
  k = key()
  kt = M.key_term(k)
  s = state_of(ctx, state)
  v = ctx.val(32)
  e = {'opaque': rig.est, 'score': ctx.f('score_function_jacobians'), 'pathwise': ctx.f('pathwise_jacobians')}[est]
  lab = '%s estimator, %d parameters of size %d, %d samples, state %s, %s%s' % (est, m, d, n, state, 'coefficients from %s samples' % coeffs if coeffs else 'unit coefficients', ' compiled' if jit else '')
  S = rig.draw(rig.pt, n, kt)
  st = [] if s is None else [rig.ST(rig.pt, list(S.reshape(-1)), V.all_terms(s))]
  fj = estimate(rig, est, rig.F, rig.pt, kt, n)
  cj = estimate(rig, est, lambda y: rig.H(rig.pt, y, st), rig.pt, kt, n)
  cs = [T.ONE] * m
  if coeffs:
    k2 = T.app('rng:split:2:0', [kt])
    nn = 20 if coeffs is True else coeffs
    # the pathwise estimator differentiates the variate through the samples only here too, unless it is given live params
    f2 = estimate(rig, est, rig.F, rig.pt, k2, nn)
    c2 = estimate(rig, est, lambda y: rig.H(rig.pt, y, st), rig.pt, k2, nn)
    cs = [coefficient(a, b, T.const(1e-3)) for a, b in zip(f2, c2)]
  want = []
  ys = [T.var('y%d' % j, 'real') for j in range(d)]
  hv = rig.H(rig.pt, ys, [T.var('st', 'real')] if st else [])
  ev = rig.E(rig.pt, [T.var('st', 'real')] if st else [])
  fix = lambda t, x: T.subst([t], dict(zip(ys, x), **({T.var('st', 'real'): st[0]} if False else {})))[0]

  def at(t, x):
    mp = dict(zip(ys, x)) if x is not None else {}
    if st: mp[T.var('st', 'real')] = st[0]
    return T.subst([t], mp)[0]
  del fix
  for i, p in enumerate(rig.ps):
    a = np.empty((n, d), dtype=object)
    for j in range(d):
      dh = mean([at(T.diff(hv, p.a[j]), S[q]) for q in range(n)])
      de = at(T.diff(ev, p.a[j]), None)
      for q in range(n):
        a[q, j] = T.add(T.sub(T.sub(fj[i][q, j], T.mul(cs[i], cj[i][q, j])), T.mul(cs[i], dh)), T.mul(cs[i], de))
    want.append(Arr(a, 'float32'))
  for container in (list, tuple) if est != 'opaque' or not jit else (list,):
    del rig.updates[:]
    params = container(rig.ps)
    kw = dict(control_variate_state=s)
    if coeffs: kw['estimate_cv_coeffs'] = True
    if coeffs and coeffs is not True: kw['estimate_cv_coeffs_num_samples'] = coeffs
    ctx.I.jit = jit
    try:
      r = ctx.guard(lab, ctx.call, 'control_variates_jacobians', rig.function, rig.cv, e, params, rig.builder, k, n, **kw)
      if container is tuple:
        r2 = ctx.call('control_variates_jacobians', function=rig.function, control_variate_from_function=rig.cv, grad_estimator=e, params=params, dist_builder=rig.builder, rng=k, num_samples=n, **kw)
        ctx.eq('identity', lab + ': keywords', r2, r, v)
    finally: ctx.I.jit = False
    if r is None: continue
    r = ctx.I.iterate(r)
    l2 = '%s, %s' % (lab, container.__name__)
    js = ctx.I.iterate(r[0])
    ctx.true('identity', l2 + ': one Jacobian per parameter', len(js) == m, '%d' % len(js))
    for i in range(m): ctx.eq('identity', '%s: parameter %d' % (l2, i), js[i], want[i], v, tol=1e-7)
    if s is None: ctx.true('state', l2 + ': no state', r[1] is None, 'returns %r' % (r[1],))
    else: ctx.eq('state', l2 + ': state is updated once, with the samples used', r[1], {'s': rig.sc(st[0])}, v)


def coefficients(ctx, d, m, n, est, state, jit):
  rig = Rig(ctx, d, m)
  k = key()
  s = state_of(ctx, state)
  st = V.all_terms(s)
  k2 = T.app('rng:split:2:0', [M.key_term(k)])
  v = ctx.val(32)
  f2 = estimate(rig, est, rig.F, rig.pt, k2, n)
  c2 = estimate(rig, est, lambda y: rig.H(rig.pt, y, st), rig.pt, k2, n)
  e = {'opaque': rig.est, 'score': ctx.f('score_function_jacobians'), 'pathwise': ctx.f('pathwise_jacobians')}[est]
  name = '_src.control_variates.estimate_control_variate_coefficients'
  for eps in (None, 0.25, ctx.h('eps', 'pos'), 0.0):
    kw = {} if eps is None else {'eps': eps}
    et = T.const(1e-3) if eps is None else eps.item() if isinstance(eps, Arr) else T.const(eps)
    lab = '%s estimator, %d parameters of size %d, %d samples, state %s, eps %s%s' % (est, m, d, n, state, 'default' if eps is None else 'symbolic' if isinstance(eps, Arr) else eps, ' compiled' if jit else '')
    del rig.updates[:]
    ctx.I.jit = jit
    try: r = ctx.guard(lab, ctx.call, name, rig.function, rig.cv, e, rig.ps, rig.builder, k, n, s, **kw)
    finally: ctx.I.jit = False
    if r is None: continue
    r = ctx.I.iterate(r)
    ctx.true('coefficients', lab + ': one per parameter', len(r) == m, '%d' % len(r))
    for i in range(min(m, len(r))): ctx.eq('coefficients', '%s: parameter %d' % (lab, i), r[i], rig.sc(coefficient(f2[i], c2[i], et)), v, tol=1e-7)
    ctx.true('state', lab + ': the state is not updated', not rig.updates, 'the control variate state is updated')


def delta(ctx, d, jit):
  """Second-order expansion of the function at the mean, and its Gaussian expectation."""
  F = lambda ts: T.app('F', list(ts))
  f = ctx.prim(lambda x: Arr(V.oarr(F(V.as_arr(x).terms())), 'float32', traced=True), 'function')
  m, ls, x = ctx.arr('m', (d,)), ctx.arr('ls', (d,)), ctx.arr('x', (d,))
  v = ctx.val(64)
  g = [T.diff(F(m.terms()), t) for t in m.terms()]
  H = [[T.diff(a, t) for t in m.terms()] for a in g]
  c = x.a - m.a
  e = F(m.terms())
  for i in range(d):
    e = T.add(e, T.mul(g[i], c[i]))
    for j in range(d): e = T.add(e, T.mul(T.const(0.5), T.mul(H[i][j], T.mul(c[i], c[j]))))
  ex = F(m.terms())
  for i in range(d): ex = T.add(ex, T.mul(T.const(0.5), T.mul(H[i][i], T.unary('exp', T.mul(T.const(2.0), ls.a[i])))))
  cv, exp, upd = ctx.I.iterate(ctx.call('control_delta_method', f))
  ctx.I.jit = jit
  try:
    for params in ([m, ls], (m, ls)):
      lab = '%d dimensions, %s%s' % (d, type(params).__name__, ' compiled' if jit else '')
      for st in (None, ctx.arr('st', ())):
        ctx.eq('delta', lab + ': value', ctx.I.call(cv, [params, x, st]), Arr(V.oarr(e), 'float32'), v, tol=1e-7)
        ctx.eq('delta', lab + ': expectation', ctx.I.call(exp, [params, st]), Arr(V.oarr(ex), 'float32'), v, tol=1e-7)
        ctx.true('delta', lab + ': state unchanged', ctx.I.call(upd, [params, x, st]) is st, 'the state changes')
      ctx.eq('delta', lab + ': value without a state', ctx.I.call(cv, [params, x]), Arr(V.oarr(e), 'float32'), v, tol=1e-7)
      # exact on quadratics: the expansion is the function itself
      q = ctx.scripted('import jax.numpy as jnp\ndef quad(y): return 0.75 + jnp.sum(y * w) + 0.5 * jnp.sum(y * jnp.dot(A, y))\n', w=ctx.arr('w', (d,)), A=ctx.arr('A', (d, d)))['quad']
      cv2, exp2, _ = ctx.I.iterate(ctx.call('control_delta_method', function=q))
      ctx.eq('delta', lab + ': exact on quadratics', ctx.I.call(cv2, [params, x, None]), ctx.I.call(q, [x]), v, tol=1e-7)
      ctx.eq('delta', lab + ': expectation of a quadratic', ctx.I.call(exp2, [params, None]),
             V.as_arr(ctx.scripted('import jax.numpy as jnp\nr = q(m) + 0.5 * jnp.sum(jnp.diag(A) * jnp.exp(2 * s))\n', q=q, m=m, s=ls, A=ctx.arr('A', (d, d)))['r']), v, tol=1e-7)
  finally: ctx.I.jit = False


def heuristic(dec, i): return T.minimum(dec, T.div(T.add(T.ONE, i), T.add(T.const(10.0), i)))


def moving(ctx, n, d, debias, heur, jit):
  """Any state: value' = (decay*w_i*value + (1-decay)*mean f)/w_(i+1), w_i = 1 - decay^i when debiasing."""
  fn = lambda ts: T.app('F', list(ts))
  f = ctx.prim(lambda x: Arr(V.oarr(fn(V.as_arr(x).terms())), 'float32', traced=True), 'function')
  X = ctx.arr('x', (n, d))
  p = [ctx.arr('m', (d,)), ctx.arr('s', (d,))]
  mu = mean([fn(X.a[i]) for i in range(n)])
  v = ctx.val(64)
  for dk, dec in (('symbolic', ctx.h('decay', ('range', 0.02, 0.98))), ('0.5', 0.5), ('0.05', 0.05), ('0.9999', 0.9999), ('default', None)):
    dt = T.const(0.99) if dec is None else dec.item() if isinstance(dec, Arr) else T.const(dec)
    kw = {} if dec is None else {'decay': dec}
    if not debias: kw['zero_debias'] = False
    if not heur: kw['use_decay_early_training_heuristic'] = False
    cv, exp, upd = ctx.I.iterate(ctx.call('moving_avg_baseline', f, **kw))
    for ik, i in (('0', 0), ('1', 1), ('2', 2), ('7', 7), ('100', 100), ('30000', 30000), ('symbolic', ctx.arr('i', (), 'count', 'int32'))):
      it = i.item() if isinstance(i, Arr) else T.const(float(i))
      val = ctx.arr('v', ())
      lab = 'decay %s, %s%s, step %s, %d samples%s' % (dk, 'debiased' if debias else 'biased', ', early-training heuristic' if heur else '', ik, n, ' compiled' if jit else '')
      q = heuristic(dt, it) if heur else dt
      w = lambda k: T.sub(T.ONE, T.power(q, k)) if debias else T.ONE
      e = T.div(T.add(T.mul(T.mul(q, w(it)), val.item()), T.mul(T.sub(T.ONE, q), mu)), w(T.add(it, T.ONE)))
      ctx.I.jit = jit
      try:
        r = ctx.guard(lab, ctx.I.call, upd, [p, X, (val, i)])
        if r is None: continue
        r = ctx.I.iterate(r)
        ctx.eq('moving average', lab + ': value', r[0], Arr(V.oarr(e), 'float32'), v, tol=1e-8)
        ctx.eq('moving average', lab + ': step', r[1], Arr(V.oarr(T.add(it, T.ONE)), V.as_arr(r[1]).dtype), v)
        ctx.eq('moving average', lab + ': variate is the stored average', ctx.I.call(cv, [p, X, (val, i)]), val, v)
        ctx.eq('moving average', lab + ': expectation is the stored average', ctx.I.call(exp, [p, (val, i)]), val, v)
      finally: ctx.I.jit = False


def history(ctx, n, d, debias, heur, steps):
  """From the initial state: the closed form of the average of everything seen, and exactness on constants."""
  fn = lambda ts: T.app('F', list(ts))
  f = ctx.prim(lambda x: Arr(V.oarr(fn(V.as_arr(x).terms())), 'float32', traced=True), 'function')
  konst = ctx.h('c', 'real')
  fc = ctx.prim(lambda x: Arr(V.oarr(konst.item()), 'float32', traced=True), 'constant')
  v = ctx.val(48)
  p = [ctx.arr('m', (d,)), ctx.arr('s', (d,))]
  for dk, dec in (('symbolic', ctx.h('decay', ('range', 0.02, 0.98))), ('0.9', 0.9)):
    dt = dec.item() if isinstance(dec, Arr) else T.const(dec)
    kw = dict(decay=dec, zero_debias=debias, use_decay_early_training_heuristic=heur)
    for start in ((0., 0), (V.const_arr(0.0, 'float32'), V.const_arr(0, 'int32'))):
      _, _, upd = ctx.I.iterate(ctx.call('moving_avg_baseline', f, **kw))
      _, _, updc = ctx.I.iterate(ctx.call('moving_avg_baseline', fc, **kw))
      s, c = start, start
      raw, mus = T.ZERO, []
      for k in range(1, steps + 1):
        X = ctx.arr('x%d' % k, (n, d))
        s = tuple(ctx.I.iterate(ctx.I.call(upd, [p, X, s])))
        c = tuple(ctx.I.iterate(ctx.I.call(updc, [p, X, c])))
        mus.append(mean([fn(X.a[i]) for i in range(n)]))
        lab = 'decay %s, %s%s, after %d updates' % (dk, 'debiased' if debias else 'biased', ', heuristic' if heur else '', k)
        q = heuristic(dt, T.const(float(k - 1))) if heur else dt
        raw = T.add(T.mul(q, raw), T.mul(T.sub(T.ONE, q), mus[-1]))
        if not heur: ctx.eq('history', lab + ': average of the past function values', s[0], Arr(V.oarr(T.div(raw, T.sub(T.ONE, T.power(dt, T.const(float(k)))) if debias else T.ONE)), 'float32'), v, tol=1e-7)
        elif not debias: ctx.eq('history', lab + ': average of the past function values', s[0], Arr(V.oarr(raw), 'float32'), v, tol=1e-7)
        if debias: ctx.eq('history', lab + ': a constant function has itself as baseline', c[0], Arr(V.oarr(konst.item()), 'float32'), v, tol=1e-7)


def baseline_end_to_end(ctx, jit):
  """The moving-average baseline inside the Jacobian computation: f minus the updated average."""
  rig = Rig(ctx, 2, 2)
  k = key()
  n = 3
  S = rig.draw(rig.pt, n, M.key_term(k))
  v = ctx.val(32)
  val = ctx.arr('v', ())
  dec = 0.75
  mk = ctx.prim(lambda f: ctx.call('moving_avg_baseline', f, decay=dec, zero_debias=False, use_decay_early_training_heuristic=False), 'baseline')
  mu = mean([rig.F(S[i]) for i in range(n)])
  b = T.add(T.mul(T.const(dec), val.item()), T.mul(T.const(1 - dec), mu))
  bv = T.var('bv', 'real')
  want = [Arr(V.vec(lambda t: T.subst([t], {bv: b})[0], r), 'float32') for r in score_ref(rig.ps, S, lambda y: T.sub(rig.F(list(y)), bv), lambda ys: rig.LP(rig.pt, ys))]
  ctx.I.jit = jit
  try: r = ctx.I.iterate(ctx.call('control_variates_jacobians', rig.function, mk, ctx.f('score_function_jacobians'), rig.ps, rig.builder, k, n, (val, 4)))
  finally: ctx.I.jit = False
  ctx.eq('baseline', 'score function with the moving average subtracted%s' % (' compiled' if jit else ''), list(ctx.I.iterate(r[0])), want, v, tol=1e-7)
  ctx.eq('baseline', 'state', list(ctx.I.iterate(r[1])), [Arr(V.oarr(b), 'float32'), V.as_arr(5)], v)


def check(ctx):
  for n in ctx.sizes('control_variates.py', hi=300):
    ctx.section('identity %d' % n, identity, 1, 1, n, 'opaque', 'none', 3, False)
    ctx.section('coefficients %d' % n, coefficients, 1, 1, n, 'opaque', 'none', False)
    ctx.section('moving %d' % n, moving, n, 1, True, True, False)
  for est in ('opaque', 'score', 'pathwise'):
    for d, m, n in ((2, 2, 2), (1, 2, 3), (3, 1, 2), (2, 3, 1)):
      for state in ('none', 'array', 'tree'):
        for co in (None, 3, True):
          if co is True and not (est == 'opaque' and (d, m, n) == (2, 2, 2)): continue
          ctx.section('identity %s %s %s %s' % (est, (d, m, n), state, co), identity, d, m, n, est, state, co, False)
    ctx.section('identity %s compiled' % est, identity, 2, 2, 2, est, 'tree', 3, True)
    for d, m, n in ((2, 2, 3), (1, 1, 2), (3, 2, 2), (2, 3, 1)):
      for state in ('none', 'tree'): ctx.section('coefficients %s %s %s' % (est, (d, m, n), state), coefficients, d, m, n, est, state, False)
    ctx.section('coefficients %s compiled' % est, coefficients, 2, 2, 2, est, 'array', True)
  for d in (1, 2, 3) + ((4,) if ctx.thorough else ()):
    for jit in (False, True): ctx.section('delta %d %s' % (d, jit), delta, d, jit)
  for debias in (True, False):
    for heur in (True, False):
      for n, d in ((1, 1), (3, 2)):
        ctx.section('moving %s %s %d' % (debias, heur, n), moving, n, d, debias, heur, False)
      ctx.section('moving %s %s compiled' % (debias, heur), moving, 2, 1, debias, heur, True)
      ctx.section('history %s %s' % (debias, heur), history, 2, 1, debias, heur, 12 if ctx.thorough else 5)
  for jit in (False, True): ctx.section('baseline %s' % jit, baseline_end_to_end, jit)
