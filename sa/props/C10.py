"""Elementary schedules: the value graph of schedule(count), for symbolic hyperparameters and an
arbitrary step count (including the ends of the int32 range), is decided equal to the documented
closed form; degenerate settings must give the documented constant or raise on every path."""
import itertools
import math

from .. import terms as T, values as V
from ..spec import ref, sqrt
from ..values import Arr

RULE = """value-graph equality with the closed form for symbolic counts and hyperparameters"""
FLOOR = 120
c = T.const
COUNTS = {'traced': ('arr', 'count'), 'small': ('arr', ('ints', 0, 24)), 'huge': ('arr', 'bigcount'), 'python': ('py', ('ints', 0, 24)), 'float': ('flt', ('ints', 0, 24))}


def count(ctx, kind, dom=None):
  how, dom = COUNTS[kind][0], dom or COUNTS[kind][1]
  if how == 'arr': return ctx.arr('count', (), dom, 'int32')
  if how == 'py': return ctx.h('count', dom, 'int')
  return ctx.arr('count', (), dom, 'float32')


def check_at(ctx, rule, label, sched, closed, kinds=('traced', 'small', 'python'), v=None, ieee=False, dom=None):
  """closed: Term count -> Term."""
  for k in kinds:
    n = count(ctx, k, dom)
    ctx.count_kind = k
    r = ctx.I.call(sched, [n])
    ctx.eq(rule, '%s at a %s count' % (label, k), V.as_arr(r), ref(closed(n.item())), v or ctx.val(128), ieee=ieee)


def check_near(ctx, rule, label, sched, closed, points, **domains):
  """Steps at, just before and just after each of the points (the edges of long schedules)."""
  ns = sorted({max(0, int(p) + d) for p in points for d in (-2, -1, 0, 1, 2)})
  check_at(ctx, rule, label + ' around its edges', sched, closed, ('traced', 'python'), ctx.val(160, **domains), dom=('intset', tuple(ns)))


def clip(x, a, b): return T.minimum(T.maximum(x, a), b)


def poly(init, end, power, steps, begin):
  def f(n):
    x = clip(n - T.maximum(begin, c(0)), c(0), steps)
    return (init - end) * (1 - x / steps) ** power + end
  return f


def const(ctx):
  v = ctx.h('value', 'real')
  check_at(ctx, 'constant', 'constant_schedule', ctx.call('constant_schedule', v), lambda n: v.item(), COUNTS)
  check_at(ctx, 'constant', 'constant_schedule keyword', ctx.call('constant_schedule', value=v), lambda n: v.item())


def polynomial(ctx, power, begin, steps):
  i, e = ctx.h('init', 'real'), ctx.h('end', 'real')
  pw = {'sym': lambda: ctx.h('power', ('range', 0.3, 3.0)), 'int': lambda: ctx.h('power', ('ints', 1, 4), 'int')}.get(power, lambda: power)()
  b = {'sym': lambda: ctx.h('begin', ('ints', 0, 8), 'int'), 'neg': lambda: ctx.h('begin', ('ints', -6, -1), 'int'),
       'any': lambda: ctx.h('begin', ('ints', -4, 6), 'int')}.get(begin, lambda: begin)()
  st = {'sym': lambda: ctx.h('steps', ('ints', 1, 12), 'int')}.get(steps, lambda: steps)()
  kw = dict(init_value=i, end_value=e, power=pw, transition_steps=st)
  if begin is not None: kw['transition_begin'] = b
  s = ctx.call('polynomial_schedule', **kw)
  t = lambda x: x.item() if isinstance(x, Arr) else c(x)
  check_at(ctx, 'polynomial', 'polynomial_schedule(power=%s, begin=%s, steps=%s)' % (power, begin, steps), s,
           poly(i.item(), e.item(), t(pw), t(st), t(b if begin is not None else 0)), COUNTS)


def poly_positional(ctx):
  i, e, st, b = ctx.h('init', 'real'), ctx.h('end', 'real'), ctx.h('steps', ('ints', 1, 12), 'int'), ctx.h('begin', ('ints', 0, 8), 'int')
  check_at(ctx, 'polynomial', 'polynomial_schedule positional', ctx.call('polynomial_schedule', i, e, 2, st, b), poly(i.item(), e.item(), c(2), st.item(), b.item()))
  check_at(ctx, 'linear', 'linear_schedule positional', ctx.call('linear_schedule', i, e, st, b), poly(i.item(), e.item(), c(1), st.item(), b.item()), COUNTS)
  check_at(ctx, 'linear', 'linear_schedule keywords', ctx.call('linear_schedule', init_value=i, end_value=e, transition_steps=st, transition_begin=b),
           poly(i.item(), e.item(), c(1), st.item(), b.item()))
  check_at(ctx, 'linear', 'linear_schedule defaults', ctx.call('linear_schedule', i, e, st), poly(i.item(), e.item(), c(1), st.item(), c(0)))


def disabled(ctx):
  i, e = ctx.h('init', 'real'), ctx.h('end', 'real')
  nonpos = ctx.h('steps', ('ints', -5, 0), 'int')
  for st in (0, -3, nonpos):
    lab = 'symbolic' if isinstance(st, Arr) else st
    check_at(ctx, 'disabled', 'polynomial with %s <= 0 steps' % lab, ctx.call('polynomial_schedule', i, e, 2, st), lambda n: i.item())
    check_at(ctx, 'disabled', 'linear with %s <= 0 steps' % lab, ctx.call('linear_schedule', i, e, st, 3), lambda n: i.item())
    check_at(ctx, 'disabled', 'exponential with %s <= 0 steps' % lab, ctx.call('exponential_decay', i, st, 0.5), lambda n: i.item())
    check_at(ctx, 'disabled', 'exponential with %s <= 0 steps and an end value' % lab, ctx.call('exponential_decay', i, st, 0.5, end_value=e), lambda n: i.item())
  T5 = ctx.h('T', ('ints', 1, 9), 'int')
  for z in (0, 0.0):
    check_at(ctx, 'disabled', 'exponential with zero decay rate %r' % z, ctx.call('exponential_decay', i, T5, z), lambda n: i.item())
    check_at(ctx, 'disabled', 'exponential with zero decay rate %r, end value, staircase' % z,
             ctx.call('exponential_decay', i, T5, z, 2, True, e), lambda n: i.item())


def expo(init, steps, rate, begin, stair, end):
  def f(n):
    d = n - T.maximum(begin, c(0))
    p = d / steps
    if stair: p = T.unary('floor', p)
    r = T.ite(T.le(d, c(0)), init, init * T.power(rate, p))
    if end is not None: r = T.ite(T.lt(rate, c(1)), T.maximum(r, end), T.minimum(r, end))
    return r
  return f


def exponential(ctx, rate, begin, stair, end, positional=False):
  i = ctx.h('init', 'pos')
  T_ = ctx.h('steps', ('ints', 1, 9), 'int')
  r = ctx.h('rate', {'low': ('range', 0.2, 0.95), 'high': ('range', 1.05, 1.6), 'any': ('range', 0.3, 1.7)}[rate])
  b = {None: 0, 'sym': ctx.h('begin', ('ints', 0, 8), 'int'), 'neg': ctx.h('begin2', ('ints', -6, -1), 'int')}[begin]
  e = ctx.h('end', 'pos') if end else None
  if positional: s = ctx.call('exponential_decay', i, T_, r, b, stair, e)
  else:
    kw = dict(init_value=i, transition_steps=T_, decay_rate=r)
    if begin: kw['transition_begin'] = b
    if stair: kw['staircase'] = True
    if end: kw['end_value'] = e
    s = ctx.call('exponential_decay', **kw)
  t = lambda x: x.item() if isinstance(x, Arr) else c(x)
  check_at(ctx, 'exponential', 'exponential_decay(rate %s, begin=%s, staircase=%s, end_value=%s%s)' % (rate, begin, stair, end, ', positional' if positional else ''), s,
           expo(i.item(), T_.item(), r.item(), t(b), stair, e.item() if end else None), ('small', 'python', 'float'))


def exp_ends(ctx):
  """End values that are zero, negative or beyond the initial value bound all the same."""
  T_ = ctx.h('steps', ('ints', 1, 9), 'int')
  for rate, init, ends in ((0.5, 'pos', (0, 0.0, -1.0, 50.0)), (1.5, 'pos', (0, 0.0, -1.0, 1e-3)), (0.5, 'neg', (0, 0.0, -0.5, -50.0)), (1.5, 'neg', (0, 0.0, -0.5, -50.0))):
    i = ctx.h('init_' + init, ('range', 0.2, 3.0) if init == 'pos' else ('range', -3.0, -0.2))
    for e in ends:
      for stair in (False, True):
        s = ctx.call('exponential_decay', i, T_, rate, 2, stair, e)
        check_at(ctx, 'exponential', 'exponential_decay of a %s value at rate %s with end value %r, staircase=%s' % (init, rate, e, stair), s,
                 expo(i.item(), T_.item(), c(rate), c(2), stair, c(float(e))), ('small',))


def zero_factors(ctx):
  i = ctx.h('init', 'real')
  for d in ({3: 0.0}, {3: 0}, {2: 0.5, 5: 0.0, 7: 2.0}, {0: 0.0}):
    def f(n, d=d):
      r = i.item()
      for b, x in sorted(d.items()): r = T.ite(T.le(c(b), n), r * c(float(x)), r)
      return r
    check_at(ctx, 'piecewise', 'piecewise_constant_schedule with factors %s' % d, ctx.call('piecewise_constant_schedule', i, d), f)


def exp_rate_one(ctx):
  i, T_, e = ctx.h('init', 'pos'), ctx.h('steps', ('ints', 1, 9), 'int'), ctx.h('end', 'pos')
  s = ctx.call('exponential_decay', i, T_, 1.0, end_value=e)
  check_at(ctx, 'exponential', 'exponential_decay at rate exactly 1 treats end_value as an upper bound', s,
           expo(i.item(), T_.item(), c(1.0), c(0), False, e.item()))


def cosine(ctx, alpha, dom='unit'):
  i, T_ = ctx.h('init', 'real'), ctx.h('steps', ('ints', 1, 15), 'int')
  a = ctx.h('alpha', dom) if alpha else None
  s = ctx.call('cosine_decay_schedule', i, T_, *([a] if alpha else []))
  A = a.item() if alpha else c(0.0)
  f = lambda n: i.item() * ((1 - A) * (0.5 * (1 + T.unary('cos', c(math.pi) * T.minimum(n, T_.item()) / T_.item()))) + A)
  check_at(ctx, 'cosine', 'cosine_decay_schedule(alpha=%s)' % ('symbolic' if alpha else 'default'), s, f, COUNTS)
  kw = dict(init_value=i, decay_steps=T_)
  if alpha: kw['alpha'] = a
  check_at(ctx, 'cosine', 'cosine_decay_schedule keywords(alpha=%s)' % alpha, ctx.call('cosine_decay_schedule', **kw), f)


def cosine_bad(ctx):
  for d in (0, -1, -20): ctx.expect_raise('cosine', 'decay_steps=%d' % d, lambda: ctx.call('cosine_decay_schedule', 1.0, d))


BOUNDS = [(), (0,), (5,), (3, 7), (7, 3), (1, 2, 3), (9, 2, 6, 4), (0, 1), (10, 100, 1000)]


def piecewise(ctx, bs):
  i = ctx.h('init', 'real')
  sc = [ctx.h('f%d' % k, 'nonneg0') for k in range(len(bs))]
  for given in ((True, False) if not bs else (True,)):
    s = ctx.call('piecewise_constant_schedule', i, dict(zip(bs, sc))) if given else ctx.call('piecewise_constant_schedule', i)

    def f(n):
      r = i.item()
      for b, x in sorted(zip(bs, sc), key=lambda z: z[0]): r = T.ite(T.le(c(b), n), r * x.item(), r)
      return r
    check_at(ctx, 'piecewise', 'piecewise_constant_schedule(boundaries %s%s)' % (list(bs), '' if given else ', omitted'), s, f,
             COUNTS if len(bs) < 3 or max(bs) > 50 else ('small', 'traced'))


def piecewise_exact(ctx):
  """At the boundary step itself and on both sides of it, including int32 extremes."""
  i, x = ctx.h('init', 'real'), ctx.h('f', 'pos')
  for b in (1, 4, 2**31 - 1):
    s = ctx.call('piecewise_constant_schedule', i, {b: x})
    for n in (b - 1, b, b + 1):
      if n >= 2**31: continue
      r = ctx.I.call(s, [V.const_arr(n, 'int32')])
      ctx.eq('piecewise', 'boundary %d at step %d' % (b, n), V.as_arr(r), ref(i.item() * x.item() if n >= b else i.item()))


def piecewise_bad(ctx):
  for d in ({3: -1.0}, {3: 0.5, 6: -0.1}, {6: -0.1, 2: 1.0}):
    ctx.expect_raise('piecewise', 'negative scale %s' % d, lambda: ctx.call('piecewise_constant_schedule', 1.0, d))


def long_ones(ctx, n):
  """Training-length schedules: edges far from zero."""
  i, e, b = ctx.h('init', 'pos'), ctx.h('end', 'pos'), max(1, n // 2)
  pts = [k * n + x for k in range(5) for x in (0, b)] + [b, n // 3]
  check_near(ctx, 'constant', 'constant_schedule', ctx.call('constant_schedule', i), lambda x: i.item(), pts)
  for bg in (0, b):
    for pw in (1, 2.0):
      check_near(ctx, 'polynomial', 'polynomial_schedule(power %s, %d steps from %d)' % (pw, n, bg),
                 ctx.call('polynomial_schedule', i, e, pw, n, bg), poly(i.item(), e.item(), c(pw), c(n), c(bg)), pts)
    check_near(ctx, 'linear', 'linear_schedule(%d steps from %d)' % (n, bg), ctx.call('linear_schedule', i, e, n, bg), poly(i.item(), e.item(), c(1), c(n), c(bg)), pts)
    for stair in (False, True):
      for end in (None, e):
        for rate in (0.96, 1.04):
          check_near(ctx, 'exponential', 'exponential_decay(rate %s, %d steps from %d, staircase=%s, end=%s)' % (rate, n, bg, stair, end is not None),
                     ctx.call('exponential_decay', i, n, rate, bg, stair, end), expo(i.item(), c(n), c(rate), c(bg), stair, None if end is None else end.item()), pts)
  f = lambda x: i.item() * (0.5 * (1 + T.unary('cos', c(math.pi) * T.minimum(x, c(n)) / c(n))))
  check_near(ctx, 'cosine', 'cosine_decay_schedule(%d steps)' % n, ctx.call('cosine_decay_schedule', i, n), f, pts)
  fs = [ctx.h('f%d' % k, 'pos') for k in range(3)]
  bs = [b, n, 3 * n]
  def g(x):
    r = i.item()
    for at, y in zip(bs, fs): r = T.ite(T.le(c(at), x), r * y.item(), r)
    return r
  check_near(ctx, 'piecewise', 'piecewise_constant_schedule at %s' % bs, ctx.call('piecewise_constant_schedule', i, dict(zip(bs, fs))), g, bs)


LONG = (1000, 4096, 10000, 65536, 250000)


def check(ctx):
  for n in LONG: ctx.section('long %d' % n, long_ones, n)
  ctx.section('constant', const)
  for power, begin, steps in [('sym', 'sym', 'sym'), ('int', 'any', 'sym'), (1, None, 'sym'), (2, 'neg', 'sym'), (0.5, 'sym', 1), (3.0, 4, 7)]:
    ctx.section('poly %s %s %s' % (power, begin, steps), polynomial, power, begin, steps)
  ctx.section('poly positional', poly_positional)
  ctx.section('disabled', disabled)
  for rate, begin, stair, end in itertools.product(('low', 'high', 'any'), (None, 'sym', 'neg'), (False, True), (False, True)):
    ctx.section('exp %s %s %s %s' % (rate, begin, stair, end), exponential, rate, begin, stair, end)
  ctx.section('exp positional', exponential, 'any', 'sym', True, True, True)
  ctx.section('exp rate one', exp_rate_one)
  ctx.section('exp ends', exp_ends)
  ctx.section('zero factors', zero_factors)
  ctx.section('cosine', cosine, True)
  ctx.section('cosine any alpha', cosine, True, ('range', -1.5, 4.0))
  ctx.section('cosine default', cosine, False)
  ctx.section('cosine bad', cosine_bad)
  for bs in BOUNDS: ctx.section('piecewise %s' % (bs,), piecewise, bs)
  ctx.section('piecewise exact', piecewise_exact)
  ctx.section('piecewise bad', piecewise_bad)


_ = sqrt
