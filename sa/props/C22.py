"""lookahead is analysed around an opaque fast optimizer (seeing fast gradients, fast params and its own
state), from any state and over histories: slow/fast updates, the reset of the fast state (including
boolean, integer and non-finite state) and the period counter equal the documented synchronisation."""
import numpy as np

from .. import terms as T, values as V
from ..opaque import Opaque
from ..spec import L, ref, TREE
from ..values import ANT, Arr
from .C17 import sel, zeros

RULE = """value-graph equality with the synchronisation equations around an uninterpreted fast optimizer"""
FLOOR = 60


class Rich(Opaque):
  """Opaque optimizer whose state also has boolean and integer leaves."""

  def pure_init(self, params):
    s = Opaque.pure_init(self, params)
    a = V.all_terms(params)
    s['flag'] = Arr(V.oarr(T.app(self.name + '.if', a, boolean=True)), 'bool', traced=True)
    s['n'] = V.const_arr(0, 'int32')
    return s

  def init(self, params):
    self.inits.append(params)
    return self.pure_init(params)

  def pure(self, u, s, params=None):
    core = {'m': s['m'], 'k': s['k']}
    x, t = Opaque.pure(self, u, core, params)
    a = V.all_terms(u) + V.all_terms(s)
    t['flag'] = Arr(V.oarr(T.app(self.name + '.f', a, boolean=True)), 'bool', traced=True)
    t['n'] = Arr(V.oarr(T.add(s['n'].item(), T.const(3))), 'int32', traced=True)
    return x, t

  def havoc(self, tag, params, dom='real'):
    return {'m': V.tree_map(lambda l: V.sym('%s.%s.m%d' % (self.name, tag, self._n()), l.shape, dom, l.dtype), params),
            'k': V.sym('%s.%s.k' % (self.name, tag), (), dom, 'float32'),
            'flag': V.sym('%s.%s.f' % (self.name, tag), (), 'bool', 'bool'), 'n': V.sym('%s.%s.n' % (self.name, tag), (), 'count', 'int32')}


def pair(ctx, tree, tag, dom='real'):
  cls = ctx.f('LookaheadParams')
  return ctx.I.call(cls, [], {'fast': ctx.tree(tag + 'f', tree, dom=dom), 'slow': ctx.tree(tag + 's', tree)})


def e2(f, *ls): return Arr(V.vec(f, *ls), ls[0].dtype)


def step(m, g, fs, n, P, period, ss, reset):
  f, s = P.get('fast'), P.get('slow')
  u, fs2 = m.pure(g, fs, f)
  sync = T.eq(n, T.sub(period, T.ONE))
  slow = V.tree_map(lambda a, b, c: e2(lambda x, y, z: T.ite(sync, T.mul(ss, T.sub(T.add(x, y), z)), T.ZERO), a, b, c), f, u, s)
  fast = V.tree_map(lambda a, b, c: e2(lambda x, y, z: T.ite(sync, T.sub(T.add(z, T.mul(ss, T.sub(T.add(x, y), z))), x), y), a, b, c), f, u, s)
  if reset: fs2 = sel(sync, m.pure_init(f), fs2)
  return fast, slow, fs2, T.ite(sync, T.ZERO, T.add(n, T.ONE))


def any_state(ctx, tree, reset, ieee, label, kw=False):
  m = Rich(ctx, 'fast')
  per, ss = ctx.h('period', ('ints', 1, 5), 'int'), ctx.h('slow_step', ('range', 0.05, 1.9))
  args = [m.tx, per, ss]
  tx = (ctx.call('lookahead', fast_optimizer=m.tx, sync_period=per, slow_step_size=ss, **({'reset_state': reset} if reset else {}))
        if kw else ctx.call('lookahead', *(args + [reset])))
  PER = per.item()
  P = pair(ctx, tree, 'p')
  s0 = ctx.init(tx, P)
  v = ctx.val(128, since=lambda W: np.floor(W[('fr', 'unit')] * W[PER.val]))
  if not (isinstance(s0, ANT) and set(s0.fields) == {'fast_state', 'steps_since_sync'}):
    ctx.notes.append('LookaheadState fields renamed; histories only')
    return
  ctx.eq('lookahead', label + ': fast state initialised from fast params', s0.get('fast_state'), m.pure_init(P.get('fast')))
  ctx.eq('lookahead', label + ': initial period counter', s0.get('steps_since_sync'), ref(T.ZERO, 'int32'))
  st = {'fast_state': m.havoc('s', P.get('fast'), 'full' if ieee else 'real'), 'steps_since_sync': ctx.arr('since', (), 'count', 'int32')}
  g = ctx.tree('g', tree, dom='full' if ieee else 'real')
  if ieee:
    # the fast optimizer's proposed updates themselves are non-finite
    base, bad = m.pure, ctx.tree('bad', tree, dom='full')
    m.pure = lambda u, s, p=None: (V.tree_map(lambda a, b: e2(T.add, a, b), base(u, s, p)[0], bad), base(u, s, p)[1])
  u, s = ctx.update(tx, g, ANT(s0.cls, [st[f] for f in s0.fields]), P)
  fast, slow, fs, n = step(m, g, st['fast_state'], st['steps_since_sync'].item(), P, PER, ss.item(), reset)
  if not isinstance(u, ANT) or set(u.fields) != {'fast', 'slow'}:
    ctx.violate('lookahead', label + ': updates are a LookaheadParams pair', 'updates are %s' % V.describe(u))
    return
  uf, us = u.get('fast'), u.get('slow')
  if ieee:  # which non-finite value a synchronisation produces is not specified: compare the steps between
    sync = T.eq(st['steps_since_sync'].item(), T.sub(PER, T.ONE))
    uf, us, fast, slow = [sel(sync, zeros(x), x) for x in (uf, us, fast, slow)]
  ctx.eq('lookahead', label + ': fast updates', uf, fast, v, dtypes=True, ieee=ieee)
  ctx.eq('lookahead', label + ': slow updates', us, slow, v, dtypes=True, ieee=ieee)
  ctx.eq('lookahead', label + ': next fast state', s.get('fast_state'), fs, v, dtypes=True, ieee=ieee)
  ctx.eq('lookahead', label + ': next period counter', s.get('steps_since_sync'), ref(n, 'int32'), v)


def history(ctx, period, reset, nsteps):
  """From init with the params updated as a user would: slow = fast after each sync."""
  m = Opaque(ctx, 'fast')
  ss = ctx.h('slow_step', ('range', 0.05, 1.9))
  tx = ctx.call('lookahead', m.tx, period, ss, reset)
  t = {'a': L(2), 'b': L()}
  cls = ctx.f('LookaheadParams')
  w = ctx.tree('w', t)
  P = ctx.I.call(ctx.I.getattr(cls, 'init_synced'), [w])
  ctx.eq('lookahead', 'init_synced gives equal fast and slow params', [P.get('fast'), P.get('slow')], [w, w])
  s = ctx.init(tx, P)
  fs, n = m.pure_init(w), 0
  f = sl = w
  lab = 'period %d, reset %s' % (period, reset)
  for i in range(nsteps):
    g = ctx.tree('g%d' % i, t)
    u, s = ctx.update(tx, g, s, P)
    P = ctx.call('apply_updates', P, u)
    du, fs = m.pure(g, fs, f)
    f2 = V.tree_map(lambda a, b: e2(T.add, a, b), f, du)
    n += 1
    if n == period:
      n = 0
      sl = V.tree_map(lambda a, b: e2(lambda x, y: T.add(y, T.mul(ss.item(), T.sub(x, y))), a, b), f2, sl)
      if reset: fs = m.pure_init(f)
      f = sl
    else:
      f = f2
    ctx.eq('history', '%s: fast params after step %d' % (lab, i + 1), P.get('fast'), f)
    ctx.eq('history', '%s: slow params after step %d' % (lab, i + 1), P.get('slow'), sl)
    # continue from the documented value (equal to the computed one)
    P = ANT(P.cls, [f if x == 'fast' else sl for x in P.fields])


def bare_init(ctx):
  for nm, t in {'nested': TREE, 'bare': L(2)}.items():
    m = Opaque(ctx, 'fast')
    tx = ctx.call('lookahead', m.tx, 3, 0.5)
    w = ctx.tree('w', t)
    P = ctx.I.call(ctx.f('LookaheadParams'), [], {'fast': w, 'slow': ctx.tree('o', t)})
    ctx.eq('init', 'init with fast params only equals init with the pair, %s' % nm, ctx.init(tx, w), ctx.init(tx, P))


def reject(ctx):
  m = Opaque(ctx, 'fast')
  for k in (0, -1, -7):
    ctx.expect_raise('period', 'sync_period %d' % k, lambda: ctx.call('lookahead', m.tx, k, 0.5))
  ctx.call('lookahead', m.tx, 1, 0.5)
  ctx.passed('period', 'sync_period 1 accepted', 'structural')


def check(ctx):
  trees = {'nested': TREE, 'bare': L(2), 'scalar': L(), 'half': {'a': L(2, dtype='float16'), 'b': L(dtype='bfloat16')}}
  for nm, t in trees.items():
    for reset in (False, True):
      ctx.section('any %s %s' % (nm, reset), any_state, t, reset, False, '%s, reset %s' % (nm, reset), nm == 'scalar')
  for reset in (False, True):
    ctx.section('non-finite %s' % reset, any_state, TREE, reset, True, 'non-finite, reset %s' % reset)
    for per in (1, 2, 3): ctx.section('history %d %s' % (per, reset), history, per, reset, 2 * per + 1)
  ctx.section('bare init', bare_init)
  ctx.section('reject', reject)


_ = zeros
