"""apply_every and maybe_update: graphs extracted over histories from init and from arbitrary states
(opaque wrapped transformation, opaque predicate of the step) are decided equal to 'sum of the last k
on every k-th step, exact zeros otherwise' and 'wrapped step exactly where the predicate holds'."""
import numpy as np

from .. import terms as T, values as V
from ..opaque import Opaque
from ..spec import L, ref, TREE
from ..stepspec import clamp_inc
from ..values import ANT, Arr
from .C17 import sel, zeros

RULE = """value-graph equality with the accumulate-and-emit and the conditional-step equations"""
FLOOR = 60


def add(*ls):
  def f(*ts):
    r = ts[0]
    for t in ts[1:]: r = T.add(r, t)
    return r
  return Arr(V.vec(f, *ls), ls[0].dtype)


def every_history(ctx, k, tree, label, bad=(), default=False, given=False):
  tx = ctx.call('apply_every') if default else ctx.call('apply_every', k)
  p = ctx.tree('p', tree)
  s = ctx.init(tx, p)
  since = []
  v = ctx.val(48)
  for i in range(3 * k + 1):
    dom = ('set', (float('nan'), float('inf'), 1.0)) if i in bad else 'real'
    g = ctx.tree('g%d' % i, tree, dom=dom)
    u, s = ctx.update(tx, g, s, *([p] if given else []))
    since.append(g)
    if len(since) == k:
      e = V.tree_map(add, *since)
      since = []
    else:
      e = zeros(g)
    ctx.eq('apply_every', '%s: updates of step %d' % (label, i + 1), u, e, v, dtypes=True, ieee=bool(bad))


def every_any(ctx):
  k = ctx.h('k', ('ints', 2, 6), 'int')
  K = k.item()
  tx = ctx.call('apply_every', k)
  p = ctx.tree('p')
  s0 = ctx.init(tx, p)
  if not (isinstance(s0, ANT) and set(s0.fields) == {'count', 'grad_acc'}):
    ctx.notes.append('ApplyEvery fields renamed; histories only')
    return
  ctx.eq('apply_every', 'initial count', s0.get('count'), ref(T.ZERO, 'int32'))
  ctx.eq('apply_every', 'initial accumulator', s0.get('grad_acc'), zeros(p))
  v = ctx.val(96, c=lambda W: 1 + np.floor(W[('fr', 'unit')] * (W[K.val] - 1)))
  c = ctx.arr('c', (), 'count', 'int32')
  acc, g = ctx.tree('acc'), ctx.tree('g')
  st = {'count': c, 'grad_acc': acc}
  u, s = ctx.update(tx, g, ANT(s0.cls, [st[f] for f in s0.fields]))
  em = T.eq(c.item(), T.sub(K, T.ONE))
  tot = V.tree_map(add, g, acc)
  ctx.eq('apply_every', 'mid-cycle step from any state: updates', u, sel(em, tot, zeros(g)), v)
  nxt = T.ite(em, T.ZERO, T.add(c.item(), T.ONE))
  if not ctx.same(s.get('count'), ref(nxt, 'int32'), v):
    # The count leaves [0, k): then it must keep its position in the period for every count, up to the end of the int32 range.
    ctx.eq('apply_every', 'mid-cycle step from any state: next count modulo k', Arr(V.oarr(T.mod(s.get('count').item(), K)), 'int32'), ref(nxt, 'int32'), v)
    c = ctx.arr('cb', (), 'bigcount', 'int32')
    st = {'count': c, 'grad_acc': acc}
    u, s = ctx.update(tx, g, ANT(s0.cls, [st[f] for f in s0.fields]))
    pos = T.mod(c.item(), K)
    em = T.eq(pos, T.sub(K, T.ONE))
    ctx.eq('apply_every', 'step from any count: next count modulo k', Arr(V.oarr(T.mod(s.get('count').item(), K)), 'int32'),
           ref(T.ite(em, T.ZERO, T.add(pos, T.ONE)), 'int32'))
  else: ctx.passed('apply_every', 'the count stays below k and advances by one', 'fingerprint')


def maybe_any(ctx, tree, given, label, dom='count'):
  m = Opaque(ctx, 'in')
  seen = []

  def pred(stp):
    seen.append(stp)
    return Arr(V.oarr(T.app('pred', [V.step_term(stp)], boolean=True)), 'bool', traced=True)
  tx = ctx.call('maybe_update', m.tx, ctx.prim(pred, 'should_update_fn'))
  p = ctx.tree('p', tree)
  s0 = ctx.init(tx, p)
  if not (isinstance(s0, ANT) and set(s0.fields) == {'inner_state', 'step'}):
    ctx.notes.append('MaybeUpdateState fields renamed; histories only')
    return
  ctx.eq('maybe_update', label + ': initial step', s0.get('step'), ref(T.ZERO, 'int32'))
  ctx.eq('maybe_update', label + ': inner state initialised from params', s0.get('inner_state'), m.pure_init(p))
  st = {'inner_state': m.havoc('s', p), 'step': ctx.arr('n', (), dom, 'int32')}
  g = ctx.tree('g', tree)
  u, s = ctx.update(tx, g, ANT(s0.cls, [st[f] for f in s0.fields]), *([p] if given else []))
  c = T.app('pred', [st['step'].item()], boolean=True)
  eu, es = m.pure(g, st['inner_state'], p if given else None)
  ctx.eq('maybe_update', label + ': updates', u, sel(c, eu, g), dtypes=True)
  ctx.eq('maybe_update', label + ': next inner state', s.get('inner_state'), sel(c, es, st['inner_state']))
  ctx.eq('maybe_update', label + ': next step', s.get('step'), ref(clamp_inc(st['step'].item()), 'int32'))


def maybe_history(ctx, pattern, given):
  m = Opaque(ctx, 'in')

  def pred(stp):
    t = T.FALSE
    for i, b in enumerate(pattern):
      if b: t = T.lor(t, T.eq(V.step_term(stp), T.const(i)))
    return Arr(V.oarr(t), 'bool', traced=True)
  tx = ctx.call('maybe_update', inner=m.tx, should_update_fn=ctx.prim(pred, 'should_update_fn'))
  t = {'a': L(2), 'b': L()}
  p = ctx.tree('p', t)
  s, inner = ctx.init(tx, p), m.pure_init(p)
  for i, b in enumerate(pattern):
    g, pk = ctx.tree('g%d' % i, t), (ctx.tree('p%d' % i, t) if given else None)
    u, s = ctx.update(tx, g, s, *([pk] if given else []))
    eu = g
    if b: eu, inner = m.pure(g, inner, pk)
    ctx.eq('maybe_update', 'pattern %s, params %s: updates of step %d' % (pattern, given, i + 1), u, eu)


def check(ctx):
  for k in (1, 2, 3, 5) + ((7,) if ctx.thorough else ()): ctx.section('every %d' % k, every_history, k, TREE if k < 4 else {'a': L(2)}, 'apply_every(%d)' % k)
  ctx.section('every default', every_history, 1, TREE, 'apply_every()', (), True)
  ctx.section('every params', every_history, 2, TREE, 'apply_every(2) with params', (), False, True)
  ctx.section('every half', every_history, 3, {'a': L(2, dtype='float16'), 'b': L(dtype='bfloat16')}, 'apply_every(3), half precision')
  for bad in ((0,), (1,), (2,), (1, 4)): ctx.section('every bad %s' % (bad,), every_history, 3, {'a': L(2), 'b': L()}, 'apply_every(3), non-finite at %s' % (bad,), bad)
  ctx.section('every any', every_any)
  for nm, t in {'nested': TREE, 'bare': L(2), 'scalar': L()}.items():
    for given in (True, False): ctx.section('maybe %s %s' % (nm, given), maybe_any, t, given, 'maybe_update on %s, params %s' % (nm, given))
  ctx.section('maybe saturated', maybe_any, {'a': L(2)}, True, 'maybe_update at the end of the step range', 'bigcount')
  for pat in ([1, 0, 1, 0], [0, 0, 1, 1], [1, 1, 1], [0, 0, 0]):
    for given in (True, False): ctx.section('maybe %s %s' % (pat, given), maybe_history, pat, given)
