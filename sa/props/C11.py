"""join_schedules is analysed over opaque schedules (uninterpreted functions of the step they receive)
with symbolic boundaries; warmup and restart schedules with symbolic hyperparameters. Their value graphs
are decided equal to the documented joins."""
import math

import numpy as np

from .. import terms as T, values as V
from ..spec import ref
from ..values import Arr
from .C10 import check_at, check_near, clip, poly, expo, COUNTS, LONG

RULE = """value-graph equality with the documented joins over uninterpreted schedules"""
FLOOR = 40
c = T.const


def opq(ctx, name):
  def f(n):
    x = V.as_arr(n).item() if ctx.count_kind == 'float' else V.step_term(n)
    return Arr(V.oarr(T.app(name, [x])), 'float32', traced=True)
  return ctx.prim(f, name)


def joined(fs, bs):
  """fs: Term -> Term; bs: Terms, ascending."""
  def g(n):
    r = fs[0](n)
    for b, f in zip(bs, fs[1:]): r = T.ite(T.lt(n, b), r, f(n - b))
    return r
  return g


def segments(fs, bs):
  """The same as a search for the segment containing n."""
  def g(n):
    r = fs[-1](n - bs[-1]) if bs else fs[0](n)
    for i in range(len(bs) - 1, -1, -1):
      r = T.ite(T.lt(n, bs[i]), fs[i](n - bs[i - 1]) if i else fs[0](n), r)
    return r
  return g


def join(ctx, k, kind, container='list'):
  names = ['f%d' % i for i in range(k)]
  scheds = [opq(ctx, n) for n in names]
  fs = [lambda n, m=m: T.app(m, [n]) for m in names]
  if kind == 'symbolic':
    hs = [ctx.h('b%d' % i, ('ints', 0, 24), 'int') for i in range(k - 1)]
    bs = [h.item() for h in hs]
    # ascending boundaries, equal neighbours included
    ov = {}
    for i in range(k - 1):
      ov['b%d' % i] = (lambda W, i=i: np.sort(np.stack([np.floor(W[('z%d' % j, 'unit')] * 20) for j in range(k - 1)] + [np.zeros(W.n)] * (k == 1)), axis=0)[i])
    v = ctx.val(192, **ov)
  else:
    hs = {'spread': [3, 7, 12, 13], 'zero': [0, 4, 4, 9], 'close': [1, 2, 3, 4]}[kind][:k - 1]
    bs, v = [c(b) for b in hs], ctx.val(128)
  wrap = {'list': list, 'tuple': tuple}[container]
  s = ctx.call('join_schedules', wrap(scheds), wrap(hs))
  check_at(ctx, 'join', 'join of %d schedules, %s boundaries (%s)' % (k, kind, container), s, segments(fs, bs), COUNTS, v)


def long_ones(ctx, n):
  bs = [n, 2 * n, 7 * n]
  names = ['f0', 'f1', 'f2', 'f3']
  s = ctx.call('join_schedules', [opq(ctx, x) for x in names], bs)
  check_near(ctx, 'join', 'join_schedules at %s' % bs, s, segments([lambda x, m=m: T.app(m, [x]) for m in names], [c(b) for b in bs]), bs)
  i, pk, e = ctx.h('init', 'nonneg0'), ctx.h('peak', 'pos'), ctx.h('end', 'pos')
  w, d = n // 4, n
  s = ctx.call('warmup_cosine_decay_schedule', i, pk, w, d, e)
  check_near(ctx, 'warmup cosine', 'warmup_cosine_decay_schedule of %d steps' % n, s, warm_cos_spec(ctx, i.item(), pk.item(), c(w), c(d), e.item()), [0, w, d, 2 * d])
  s = ctx.call('warmup_exponential_decay_schedule', i, pk, w, n, 0.9, n // 2, True, None)
  dn = expo(pk.item(), c(n), c(0.9), c(n // 2), True, None)
  check_near(ctx, 'warmup exponential', 'warmup_exponential_decay_schedule of %d steps' % n, s, joined([poly(i.item(), pk.item(), c(1), c(w), c(0)), dn], [c(w)]),
             [0, w, w + n // 2] + [w + n // 2 + k * n for k in (1, 2, 3)])
  kws = [dict(init_value=i, peak_value=pk, warmup_steps=w, decay_steps=x, end_value=e) for x in (n, 2 * n, n)]
  spec = [warm_cos_spec(ctx, i.item(), pk.item(), c(w), c(x), e.item()) for x in (n, 2 * n, n)]
  s = ctx.call('sgdr_schedule', kws)
  check_near(ctx, 'sgdr', 'sgdr_schedule of %d-step cycles' % n, s, segments(spec, [c(n), c(3 * n)]), [0, w, n, n + w, 3 * n, 3 * n + w, 4 * n])


def join_exact(ctx):
  ctx.count_kind = 'traced'
  for b in (1, 5, 2**31 - 1):
    s = ctx.call('join_schedules', schedules=[opq(ctx, 'f'), opq(ctx, 'g')], boundaries=[b])
    for n in (b - 1, b):
      r = ctx.I.call(s, [V.const_arr(n, 'int32')])
      ctx.eq('join', 'boundary %d at step %d' % (b, n), V.as_arr(r), ref(T.app('g', [c(0)]) if n >= b else T.app('f', [c(n)])))


def cos_decay(init, steps, alpha):
  return lambda n: init * ((1 - alpha) * (0.5 * (1 + T.unary('cos', c(math.pi) * T.minimum(n, steps) / steps))) + alpha)


def warm_cos(i, pk, w, d, e):
  return joined([poly(i, pk, c(1), w, c(0)), cos_decay(pk, d - w, e / pk)], [w])


def warm_cos_spec(ctx, i, pk, w, d, e):
  """Closed form, w may be zero."""
  def f(n):
    up = i + (pk - i) * T.div(n, w)
    fr = T.minimum(n - w, d - w) / (d - w)
    dn = e + (pk - e) * 0.5 * (1 + T.unary('cos', c(math.pi) * fr))
    return T.ite(T.lt(n, w), up, dn)
  return f


def t(x): return x.item() if isinstance(x, Arr) else c(x)


def warmup_cosine(ctx, w, end, kw):
  i, pk = ctx.h('init', 'nonneg0'), ctx.h('peak', 'pos')
  e = ctx.h('end', 'nonneg0')
  W_ = ctx.h('warm', ('ints', 1, 9), 'int') if w == 'sym' else w
  D = ctx.h('total', ('ints', 2, 24), 'int')
  v = ctx.val(192, total=lambda X: np.asarray((X[('warm', ('ints', 1, 9))] if w == 'sym' else w) + 1 + np.floor(X[('ex', 'unit')] * 12)))
  ctx.domain = v
  if kw:
    k = dict(init_value=i, peak_value=pk, warmup_steps=W_, decay_steps=D)
    if end: k['end_value'] = e
    s = ctx.call('warmup_cosine_decay_schedule', **k)
  else:
    s = ctx.call('warmup_cosine_decay_schedule', i, pk, W_, D, *([e] if end else []))
  check_at(ctx, 'warmup cosine', 'warmup_cosine_decay_schedule(warmup %s, end %s, %s)' % (w, end, 'keywords' if kw else 'positional'), s,
           warm_cos_spec(ctx, i.item(), pk.item(), t(W_), D.item(), e.item() if end else c(0.0)), COUNTS, v)


def warmup_exp(ctx, w, begin, stair, end, kw=True):
  i, pk, r = ctx.h('init', 'nonneg0'), ctx.h('peak', 'pos'), ctx.h('rate', ('range', 0.3, 1.6))
  W_ = ctx.h('warm', ('ints', 1, 9), 'int') if w == 'sym' else w
  T_, b, e = ctx.h('steps', ('ints', 1, 7), 'int'), ctx.h('begin', ('ints', 0, 5), 'int'), ctx.h('end', 'nonneg0')
  if kw:
    k = dict(init_value=i, peak_value=pk, warmup_steps=W_, transition_steps=T_, decay_rate=r)
    if begin: k['transition_begin'] = b
    if stair: k['staircase'] = True
    if end: k['end_value'] = e
    s = ctx.call('warmup_exponential_decay_schedule', **k)
  else:
    s = ctx.call('warmup_exponential_decay_schedule', i, pk, W_, T_, r, b if begin else 0, stair, e if end else None)
  dn = expo(pk.item(), T_.item(), r.item(), b.item() if begin else c(0), stair, e.item() if end else None)
  up = poly(i.item(), pk.item(), c(1), t(W_), c(0)) if w else (lambda n: i.item())
  check_at(ctx, 'warmup exponential', 'warmup_exponential_decay_schedule(warmup %s, begin %s, staircase %s, end %s, %s)' % (w, begin, stair, end, 'keywords' if kw else 'positional'),
           s, joined([up, dn], [t(W_)]), ('small', 'traced', 'python'))


def sgdr(ctx, cycles, container):
  kws, specs, bs, at = [], [], [], 0
  for k, (w, d) in enumerate(cycles):
    i, pk, e = ctx.h('init%d' % k, 'nonneg0'), ctx.h('peak%d' % k, 'pos'), ctx.h('end%d' % k, 'nonneg0')
    kw = dict(init_value=i, peak_value=pk, warmup_steps=w, decay_steps=d)
    if k % 2 == 0: kw['end_value'] = e
    kws.append(kw)
    specs.append(warm_cos_spec(ctx, i.item(), pk.item(), c(w), c(d), e.item() if k % 2 == 0 else c(0.0)))
    at += d
    bs.append(c(at))
  arg = {'list': lambda: kws, 'tuple': lambda: tuple(kws), 'iterator': lambda: iter(kws)}[container]()
  s = ctx.call('sgdr_schedule', arg)
  check_at(ctx, 'sgdr', 'sgdr_schedule with cycles %s (%s)' % (cycles, container), s, segments(specs, bs[:-1]), ('small', 'traced', 'python'),
           ctx.val(192, count=('ints', 0, at + 4)))


def check(ctx):
  for n in LONG: ctx.section('long %d' % n, long_ones, n)
  for k in (1, 2, 3, 4, 5):
    for kind in ('symbolic', 'spread', 'zero', 'close'):
      ctx.section('join %d %s' % (k, kind), join, k, kind)
  ctx.section('join tuple', join, 3, 'symbolic', 'tuple')
  ctx.section('join exact', join_exact)
  for w in ('sym', 0, 1, 5):
    for end in (True, False):
      for kw in (True, False): ctx.section('warm cos %s %s %s' % (w, end, kw), warmup_cosine, w, end, kw)
  for w in ('sym', 0):
    for begin in (True, False):
      for stair in (True, False):
        for end in (True, False): ctx.section('warm exp %s %s %s %s' % (w, begin, stair, end), warmup_exp, w, begin, stair, end)
  ctx.section('warm exp positional', warmup_exp, 'sym', True, True, True, False)
  for cyc in ([(2, 6)], [(2, 6), (1, 5)], [(0, 4), (2, 5), (3, 9)], [(1, 3), (1, 3), (1, 3), (1, 3)], [(1, 4), (2, 7), (0, 3), (1, 6), (2, 5)], [(3, 9), (1, 2), (2, 8), (1, 5)]):
    ctx.section('sgdr %s' % cyc, sgdr, cyc, 'list')
  ctx.section('sgdr tuple', sgdr, [(2, 5), (1, 4)], 'tuple')
  ctx.section('sgdr iterator', sgdr, [(2, 5), (1, 4), (0, 3)], 'iterator')


_ = clip
