"""MultiSteps is analysed around an opaque wrapped optimizer, from an arbitrary reachable state and
over histories from init: the graphs of updates, counters, accumulator and inner state are decided
equal to 'mean (or sum) of the last k gradients to the wrapped optimizer on every k-th step, zeros and
an untouched inner state otherwise', for symbolic constant k and for periods scheduled by emitted step."""
import numpy as np

from .. import terms as T, values as V
from ..opaque import Opaque
from ..spec import L, ref, TREE, WIDE
from ..stepspec import clamp_inc
from ..values import ANT, Arr
from .C17 import sel, zeros

RULE = """value-graph equality with the accumulation recurrence around an uninterpreted inner optimizer:
one step from any reachable state, and histories from init"""
FLOOR = 80
TREES = {'wide': WIDE, 'nested': TREE, 'bare': L(2), 'scalar': L(), 'half': {'a': L(2, dtype='float16'), 'b': L(dtype='bfloat16')}}
F = ('mini_step', 'gradient_step', 'inner_opt_state', 'acc_grads')


def step(m, g, s, p, k, mean):
  """k: Term. s: dict with Terms for counters."""
  acc = V.tree_map(lambda a, b: Arr(V.vec(T.add, a, b), a.dtype), g, s['acc_grads'])
  inp = V.tree_map(lambda a: Arr(V.vec(lambda t: T.div(t, k), a), a.dtype), acc) if mean else acc
  mid = T.lt(s['mini_step'], T.sub(k, T.ONE))
  u, i = m.pure(inp, s['inner_opt_state'], p)
  return sel(mid, zeros(g), u), dict(
      mini_step=T.ite(mid, T.add(s['mini_step'], T.ONE), T.ZERO),
      gradient_step=T.ite(mid, s['gradient_step'], clamp_inc(s['gradient_step'])),
      inner_opt_state=sel(mid, s['inner_opt_state'], i), acc_grads=sel(mid, acc, zeros(acc))), T.lnot(mid)


def cmp_state(ctx, rule, label, s, es, v, ieee):
  if not (isinstance(s, ANT) and set(F) <= set(s.fields)):
    ctx.notes.append('state fields renamed')
    return
  for f in F:
    ctx.eq(rule, '%s: %s' % (label, f), s.get(f), es[f] if f in F[2:] else ref(es[f], 'int32'), v, ieee=ieee)


def build(ctx, m, k, mean, how):
  cls = ctx.f('MultiSteps')
  kw = {} if mean is None else {'use_grad_mean': mean}
  ms = ctx.call('MultiSteps', m.tx, k, **kw)
  del cls
  if how == 'object': return ms, ms
  return ms, ctx.I.call(ctx.I.getattr(ms, 'gradient_transformation'), [])


def any_state(ctx, tree, mean, given, label, ieee=False, how='object'):
  m = Opaque(ctx, 'in')
  dom = ('ints', 1, 5)
  k = ctx.h('k', dom, 'int')
  ms, tx = build(ctx, m, k, mean, how)
  K = k.item()
  p = ctx.tree('p', tree)
  s0 = ctx.init(tx, p)
  if not (isinstance(s0, ANT) and set(s0.fields) == set(F)):
    ctx.notes.append('state fields renamed; trajectories only')
    return
  ctx.eq('multisteps', label + ': initial mini step', s0.get('mini_step'), ref(T.ZERO, 'int32'))
  ctx.eq('multisteps', label + ': initial gradient step', s0.get('gradient_step'), ref(T.ZERO, 'int32'))
  ctx.eq('multisteps', label + ': initial accumulator', s0.get('acc_grads'), zeros(p))
  ctx.eq('multisteps', label + ': inner state initialised from params', s0.get('inner_opt_state'), m.pure_init(p))
  ov = {'mini': lambda W: np.floor(W[('fr', 'unit')] * W[K.val])}
  v = ctx.val(128, **ov)
  st = dict(mini_step=ctx.arr('mini', (), 'count', 'int32'), gradient_step=ctx.arr('gs', (), 'count', 'int32'),
            inner_opt_state=m.havoc('s', p), acc_grads=ctx.tree('acc', tree))
  g = ctx.tree('g', tree, dom='full' if ieee else 'real')
  r = ctx.update(tx, g, ANT(s0.cls, [st[f] for f in s0.fields]), *([p] if given else []))
  eu, es, em = step(m, g, {f: (st[f] if f in F[2:] else st[f].item()) for f in F}, p if given else None, K, mean is not False)
  ctx.eq('multisteps', label + ': updates', r[0], eu, v, dtypes=True, ieee=ieee)
  cmp_state(ctx, 'multisteps', label + ': next', r[1], es, v, ieee)
  hu = ctx.I.call(ctx.I.getattr(ms, 'has_updated'), [r[1]])
  ctx.eq('multisteps', label + ': has_updated after the step', hu, ref(em), v)


def history(ctx, sched, mean, given, nsteps, label):
  """sched: list of periods per emitted step (last repeats) or an int."""
  m = Opaque(ctx, 'in')
  if isinstance(sched, int):
    k, per = sched, lambda e: sched
  else:
    per = lambda e: sched[min(e, len(sched) - 1)]

    def fn(stp):
      t = T.const(sched[-1])
      for i in range(len(sched) - 2, -1, -1): t = T.ite(T.le(V.step_term(stp), T.const(i)), T.const(sched[i]), t)
      return Arr(V.oarr(t), 'int32', traced=True)
    k = ctx.prim(fn, 'schedule')
  ms, tx = build(ctx, m, k, mean, 'gt')
  p = ctx.tree('p', {'a': L(2), 'b': L()})
  s = ctx.init(tx, p)
  hu0 = ctx.I.call(ctx.I.getattr(ms, 'has_updated'), [s])
  ctx.eq('history', label + ': has_updated before any step', hu0, ref(T.FALSE))
  inner, since, emitted = m.pure_init(p), [], 0
  for i in range(nsteps):
    g = ctx.tree('g%d' % i, {'a': L(2), 'b': L()})
    pk = ctx.tree('p%d' % i, {'a': L(2), 'b': L()}) if given else None
    u, s = ctx.update(tx, g, s, *([pk] if given else []))
    since.append(g)
    emit = len(since) == per(emitted)
    if emit:
      kk = T.const(len(since) if mean is not False else 1)
      tot = V.tree_map(lambda *ls: Arr(V.vec(lambda *ts: T.div(sum_(ts), kk), *ls), 'float32'), *since)
      eu, inner = m.pure(tot, inner, pk)
      since, emitted = [], emitted + 1
    else:
      eu = zeros(g)
    ctx.eq('history', '%s: updates of step %d' % (label, i + 1), u, eu)
    ctx.eq('history', '%s: has_updated after step %d' % (label, i + 1), ctx.I.call(ctx.I.getattr(ms, 'has_updated'), [s]), ref(T.TRUE if emit else T.FALSE))


def sum_(ts):
  r = ts[0]
  for t in ts[1:]: r = T.add(r, t)
  return r


def accessor(ctx):
  m = Opaque(ctx, 'in')
  ms = ctx.call('MultiSteps', m.tx, 3)
  ctx.true('accessor', 'inner_opt is the wrapped optimizer', ctx.I.getattr(ms, 'inner_opt') is m.tx)


def check(ctx):
  TREES.update(ctx.directed('wrappers.py'))
  for nm, t in TREES.items():
    for mean in (None, True, False):
      ctx.section('any %s %s' % (nm, mean), any_state, t, mean, True, '%s tree, mean=%s' % (nm, mean), False, 'object' if mean is None else 'gt')
  ctx.section('any no params', any_state, TREE, True, False, 'without params')
  ctx.section('any non-finite', any_state, TREE, True, True, 'non-finite gradients', True)
  ctx.section('any non-finite sum', any_state, TREE, False, True, 'non-finite gradients, sum', True)
  for k in (1, 2, 3, 5): ctx.section('history %d' % k, history, k, True, True, 2 * k + 2, 'k=%d' % k)
  ctx.section('history sum', history, 3, False, True, 7, 'k=3, sum')
  ctx.section('history no params', history, 2, True, False, 5, 'k=2 without params')
  ctx.section('schedule', history, [2, 3, 1, 2], True, True, 11, 'periods 2,3,1,2')
  ctx.section('schedule sum', history, [1, 4, 2], False, True, 10, 'periods 1,4,2, sum')
  ctx.section('accessor', accessor)
