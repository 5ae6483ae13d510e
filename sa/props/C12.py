"""Interpolated and one-cycle schedules: the value graph of schedule(count) is decided equal to the
piecewise closed form through the documented knots, for symbolic values, arbitrary counts and enumerated
knot sets (coinciding, at zero, very short), which also shows that every value is finite."""
import math

from .. import terms as T, values as V
from ..spec import ref
from ..values import Arr
from .C10 import check_at, check_near, COUNTS, LONG

RULE = """value-graph equality with the piecewise interpolation through the documented knots"""
FLOOR = 80
c = T.const


def spec(kind, init, knots):
  """knots: sorted [(boundary, factor Term)] -> closed form of count; the factors of coinciding knots multiply."""
  merged = {}
  for b, f in knots: merged[b] = merged[b] * f if b in merged else f
  knots = sorted(merged.items())
  xs, ys = [0], [init]
  for b, f in knots:
    xs.append(b)
    ys.append(ys[-1] * f)

  def g(n):
    r = ys[-1]
    for i in range(len(xs) - 2, -1, -1):
      if xs[i + 1] == xs[i]: continue
      p = (n - c(xs[i])) / c(xs[i + 1] - xs[i])
      if kind == 'linear': y = ys[i] + (ys[i + 1] - ys[i]) * p
      else: y = ys[i + 1] + (ys[i] - ys[i + 1]) * 0.5 * (1 + T.unary('cos', c(math.pi) * p))
      r = T.ite(T.lt(n, c(xs[i + 1])), y, r)
    return r
  return g


KNOTS = [(), (1,), (5,), (0,), (3, 8), (8, 3), (0, 4), (4, 0, 9), (1, 2, 3), (6, 2, 11, 7), (2, 100, 1000), (1, 2, 3, 4, 5, 6)]


def piecewise(ctx, kind, bs):
  i = ctx.h('init', 'real')
  fs = [ctx.h('f%d' % k, 'nonneg0') for k in range(len(bs))]
  kn = sorted(zip(bs, [f.item() for f in fs]), key=lambda z: z[0])
  top = max(bs + (3,)) + 4
  v = ctx.val(192, count=('ints', 0, min(top, 30)))
  for how in (('given', 'omitted', 'none') if not bs else ('given', 'keyword')):
    d = dict(zip(bs, fs))
    s = {'given': lambda: ctx.call('piecewise_interpolate_schedule', kind, i, d), 'omitted': lambda: ctx.call('piecewise_interpolate_schedule', kind, i),
         'none': lambda: ctx.call('piecewise_interpolate_schedule', kind, i, None),
         'keyword': lambda: ctx.call('piecewise_interpolate_schedule', interpolate_type=kind, init_value=i, boundaries_and_scales=d)}[how]()
    check_at(ctx, 'interpolate', '%s through boundaries %s (%s)' % (kind, list(bs), how), s, spec(kind, i.item(), kn), COUNTS if how == 'given' else ('traced',), v)
    check_at(ctx, 'interpolate', '%s through boundaries %s (%s), late' % (kind, list(bs), how), s, spec(kind, i.item(), kn), ('traced', 'huge'))


def knots_exact(ctx, kind):
  i = ctx.h('init', 'real')
  fs = [ctx.h('f%d' % k, 'pos') for k in range(3)]
  bs = (2, 5, 9)
  s = ctx.call('piecewise_interpolate_schedule', kind, i, dict(zip(bs, fs)))
  y = i.item()
  for b, f in zip(bs, fs):
    y = y * f.item()
    for n in (b, ):
      ctx.eq('interpolate', '%s passes through its knot at %d' % (kind, b), V.as_arr(ctx.I.call(s, [V.const_arr(n, 'int32')])), ref(y))


def bad(ctx):
  for k in ('cubic', '', 'Linear'):
    ctx.expect_raise('interpolate', 'type %r' % k, lambda: ctx.call('piecewise_interpolate_schedule', k, 1.0, {3: 0.5}))
  for kind in ('linear', 'cosine'):
    for d in ({3: -0.5}, {3: 0.5, 1: -1.0}):
      ctx.expect_raise('interpolate', '%s negative scale %s' % (kind, d), lambda: ctx.call('piecewise_interpolate_schedule', kind, 1.0, d))
  for st in (0, -1):
    for nm in ('linear_onecycle_schedule', 'cosine_onecycle_schedule'):
      ctx.expect_raise('onecycle', '%s with %d steps' % (nm, st), lambda: ctx.call(nm, st, 1.0))


def onecycle(ctx, kind, steps, pcts, how, small=False):
  pk, dv, fd = ctx.h('peak', 'pos'), ctx.h('div', ('range', 2.0, 30.0)), ctx.h('final_div', ('range', 2.0, 1e4))
  if small: dv, fd = ctx.h('div', ('range', 0.2, 1.5)), ctx.h('final_div', ('range', 0.1, 1.5))
  nm = kind + '_onecycle_schedule'
  ps, pf = pcts if pcts else (0.3, 0.85)
  P, D, F = pk.item(), dv.item(), fd.item()
  if how == 'defaults':
    s = ctx.call(nm, steps, pk)
    D, F = c(25.0), c(1e4)
  elif how == 'positional':
    s = ctx.call(nm, steps, pk, ps, pf, dv, fd) if kind == 'linear' else ctx.call(nm, steps, pk, ps, dv, fd)
  else:
    kw = dict(transition_steps=steps, peak_value=pk, div_factor=dv, final_div_factor=fd, pct_start=ps)
    if kind == 'linear': kw['pct_final'] = pf
    s = ctx.call(nm, **kw)
  a, b = int(ps * steps), int(pf * steps)
  if kind == 'linear': kn = [(a, D), (b, 1 / D), (steps, 1 / F)]
  else: kn = [(a, D), (steps, 1 / (D * F))]
  lab = '%s over %d steps, fractions %s (%s%s)' % (nm, steps, (ps, pf) if kind == 'linear' else ps, how, ', small factors' if small else '')
  check_at(ctx, 'onecycle', lab, s, spec(kind, P / D, kn), ('small', 'traced', 'huge'), ctx.val(96, count=('ints', 0, steps + 3)))
  # the documented values at the documented steps
  for n, y in ((0, P / D if a else None), (a, P if a < b or kind == 'cosine' and a < steps else None), (steps, P / (D * F)), (steps + 7, P / (D * F))):
    if y is not None:
      ctx.eq('onecycle', '%s: value at step %d' % (lab, n), V.as_arr(ctx.I.call(s, [V.const_arr(n, 'int32')])), ref(y))


def long_ones(ctx, kind, n):
  i = ctx.h('init', 'pos')
  fs = [ctx.h('f%d' % k, 'pos') for k in range(3)]
  bs = [n // 3, n, 5 * n]
  s = ctx.call('piecewise_interpolate_schedule', kind, i, dict(zip(bs, fs)))
  check_near(ctx, 'interpolate', '%s through boundaries %s' % (kind, bs), s, spec(kind, i.item(), [(b, f.item()) for b, f in zip(bs, fs)]), [0] + bs + [n // 2, 2 * n])
  pk = ctx.h('peak', 'pos')
  s = ctx.call(kind + '_onecycle_schedule', n, pk)
  a, b = int(0.3 * n), int(0.85 * n)
  D, F = c(25.0), c(1e4)
  kn = [(a, D), (b, 1 / D), (n, 1 / F)] if kind == 'linear' else [(a, D), (n, 1 / (D * F))]
  check_near(ctx, 'onecycle', '%s_onecycle_schedule over %d steps' % (kind, n), s, spec(kind, pk.item() / D, kn), [0, a, b, n, n // 2, 2 * n])


def check(ctx):
  for kind in ('linear', 'cosine'):
    for n in LONG: ctx.section('long %s %d' % (kind, n), long_ones, kind, n)
  for kind in ('linear', 'cosine'):
    for bs in KNOTS: ctx.section('%s %s' % (kind, bs), piecewise, kind, bs)
    ctx.section('knots ' + kind, knots_exact, kind)
    for st in (1, 2, 3, 4, 7, 10, 100) + (tuple(range(5, 40)) if ctx.thorough else ()):
      ctx.section('onecycle %s %d' % (kind, st), onecycle, kind, st, None, 'defaults')
    for st, pc in ((10, (0.5, 0.9)), (10, (0.2, 1.0)), (8, (0.5, 0.5)), (10, (1.0, 1.0)), (5, (0.0, 0.6)), (20, (0.25, 0.75))):
      for how in ('positional', 'keywords'): ctx.section('onecycle %s %d %s %s' % (kind, st, pc, how), onecycle, kind, st, pc, how)
  for kind, st, pc in ((k, *x) for k in ('linear', 'cosine') for x in ((10, (0.5, 0.9)), (20, (0.25, 0.75)))): ctx.section('onecycle %s small factors %d' % (kind, st), onecycle, kind, st, pc, 'keywords', True)
  ctx.section('bad', bad)


_ = Arr
