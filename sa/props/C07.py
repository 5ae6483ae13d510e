"""Recurrence equations extracted by abstract interpretation of scale_by_adam, scale_by_belief,
scale_by_yogi and scale_by_radam are decided equal, as value graphs, to the published recurrences
for symbolic hyperparameters and an arbitrary state and step count (induction over histories)."""
from .. import terms as T, values as V
from ..spec import ref, sqrt, where, vf
from ..stepspec import HALF, Rec, check_rec

RULE = """value-graph equality of init and one-step equations with the published recurrence"""
FLOOR = 40
POS = ('tree', ('range', 0.01, 3.0))


def mom(d, g, m, order=1): return (1 - d) * g ** order + d * m


def cnt(s): return T.minimum(s['count'] + 1, T.const(T.INT32_MAX))


def adam_like(b1, b2, e, er, nu_rule):
  def step(g, s, p):
    mu = mom(b1, g, s['mu'])
    nu = nu_rule(g, s)
    c = cnt(s)
    mh, nh = mu / (1 - b1 ** c), nu / (1 - b2 ** c)
    return mh / (sqrt(nh + er) + e), {'mu': mu, 'nu': nu}
  return step


def twice(ctx, rule, name, tx, rec, **kw):
  """float32 leaves and half-precision ones (step counts stay exact there)."""
  check_rec(ctx, rule, name, tx, rec, **kw)
  check_rec(ctx, rule, name + ', half-precision gradients', tx, rec, tree=HALF, **kw)


def hyp(ctx): return [ctx.h('b1'), ctx.h('b2'), ctx.h('eps', 'small'), ctx.h('eps_root', 'small')]


def adam(ctx, kw):
  H = hyp(ctx)
  b1, b2, e, er = [x.item() for x in H]
  tx = ctx.call('scale_by_adam', b1=H[0], b2=H[1], eps=H[2], eps_root=H[3]) if kw else ctx.call('scale_by_adam', *H)
  twice(ctx, 'adam', 'scale_by_adam%s' % (' keywords' if kw else ''), tx,
        Rec({'count': 'count', 'mu': ('tree', 'real'), 'nu': POS}, lambda p: {'mu': T.ZERO, 'nu': T.ZERO},
            adam_like(b1, b2, e, er, lambda g, s: mom(b2, g, s['nu'], 2))))


def adam_defaults(ctx):
  tx = ctx.call('scale_by_adam')
  c = T.const
  check_rec(ctx, 'adam', 'scale_by_adam defaults', tx,
            Rec({'count': 'count', 'mu': ('tree', 'real'), 'nu': POS}, lambda p: {'mu': T.ZERO, 'nu': T.ZERO},
                adam_like(c(.9), c(.999), c(1e-8), c(0.), lambda g, s: mom(c(.999), g, s['nu'], 2))), steps=2)


def belief(ctx):
  H = hyp(ctx)
  b1, b2, e, er = [x.item() for x in H]
  tx = ctx.call('scale_by_belief', *H)
  twice(ctx, 'belief', 'scale_by_belief', tx,
            Rec({'count': 'count', 'mu': ('tree', 'real'), 'nu': POS}, lambda p: {'mu': T.ZERO, 'nu': T.ZERO},
                adam_like(b1, b2, e, er, lambda g, s: mom(b2, g - s['mu'], s['nu'], 2))))
  tx = ctx.call('scale_by_belief')
  c = T.const
  check_rec(ctx, 'belief', 'scale_by_belief defaults', tx,
            Rec({'count': 'count', 'mu': ('tree', 'real'), 'nu': POS}, lambda p: {'mu': T.ZERO, 'nu': T.ZERO},
                adam_like(c(.9), c(.999), c(0.), c(1e-16), lambda g, s: mom(c(.999), g - s['mu'], s['nu'], 2))), steps=2)


def yogi_nu(b2):
  def rule(g, s):
    v = s['nu']
    return v - (1 - b2) * vf(lambda t: T.unary('sign', t), v - g ** 2) * g ** 2
  return rule


def yogi_deviant(b2):
  """The recurrence of the pinned tree (known finding): EMA of the fourth power."""
  def rule(g, s):
    sq = vf(lambda t: T.unary('sign', t), s['nu'] - g ** 2) * g ** 2
    return (1 - b2) * sq ** 2 + b2 * s['nu']
  return rule


def yogi(ctx, default):
  c = T.const
  if default:
    tx = ctx.call('scale_by_yogi')
    b1, b2, e, er, a = c(.9), c(.999), c(1e-3), c(0.), c(1e-6)
  else:
    H = hyp(ctx) + [ctx.h('acc0', 'pos')]
    b1, b2, e, er, a = [x.item() for x in H]
    tx = ctx.call('scale_by_yogi', *H)
  # which second-moment rule does the code follow?
  p, g = ctx.arr('q', (2,)), ctx.arr('h', (2,))
  s0 = ctx.init(tx, p)
  rule = yogi_nu(b2)
  if isinstance(s0, V.ANT) and 'nu' in s0.fields:
    nu = ctx.arr('n', (2,), ('range', 0.01, 3.0))
    _, s1 = ctx.update(tx, g, V.ANT(s0.cls, [nu if f == 'nu' else x for f, x in zip(s0.fields, s0)]))
    same = lambda r: all(T.decide_equal(x, y, ctx.val())[0] != 'differs'
                         for x, y in zip(s1.get('nu').terms(), r(g.a, {'nu': nu.a}).reshape(-1)))
    name = 'scale_by_yogi%s' % (' defaults' if default else '')
    if same(rule): ctx.passed('yogi', name + ' second moment', 'fingerprint')
    elif same(yogi_deviant(b2)):
      rule = yogi_deviant(b2)
      ctx.violate('yogi', name + ' second moment averages the squared signed square',
                  'nu\' = b2*nu + (1-b2)*(sign(nu-g^2)*g^2)^2 instead of nu - (1-b2)*sign(nu-g^2)*g^2')
  twice(ctx, 'yogi', 'scale_by_yogi%s' % (' defaults' if default else ''), tx,
        Rec({'count': 'count', 'mu': ('tree', 'real'), 'nu': POS}, lambda p: {'mu': a, 'nu': a},
            adam_like(b1, b2, e, er, rule)), steps=2 if default else 3)


def radam_step(b1, b2, e, er, thr):
  ri = 2.0 / (1 - b2) - 1

  def step(g, s, p):
    mu, nu = mom(b1, g, s['mu']), mom(b2, g, s['nu'], 2)
    c = cnt(s)
    b2t = b2 ** c
    ro = ri - 2 * c * b2t / (1 - b2t)
    mh, nh = mu / (1 - b1 ** c), nu / (1 - b2t)
    r = T.unary('sqrt', (ro - 4) * (ro - 2) * ri / ((ri - 4) * (ri - 2) * ro))
    return where(T.ge(ro, thr), r * mh / (sqrt(nh + er) + e), mh), {'mu': mu, 'nu': nu}
  return step


def radam(ctx):
  # thresholds of at least 4 keep the rectification term's root real (documented default 5)
  H = [ctx.h('b1'), ctx.h('b2', ('range', 0.8, 0.999)), ctx.h('eps', 'small'), ctx.h('eps_root', 'small'),
       ctx.h('threshold', ('range', 4.0, 8.0))]
  b1, b2, e, er, th = [x.item() for x in H]
  tx = ctx.call('scale_by_radam', *H)
  fields = {'count': 'count', 'mu': ('tree', 'real'), 'nu': POS}
  z = lambda p: {'mu': T.ZERO, 'nu': T.ZERO}
  twice(ctx, 'radam', 'scale_by_radam', tx, Rec(fields, z, radam_step(b1, b2, e, er, th)))
  c = T.const
  # exactly at the threshold the rectified step is taken: the term is 1 after one step, whatever b2
  for d in (0.75, 0.875, 0.9375, 0.5 ** 8 * 255):
    for k in (1.0, 1):
      tx = ctx.call('scale_by_radam', H[0], d, H[2], H[3], threshold=k)
      p, g = ctx.arr('q', (2,)), ctx.arr('h', (2,))
      u, _ = ctx.update(tx, g, ctx.init(tx, p))
      e1, _ = radam_step(b1, c(d), e, er, c(1.0))(g.a, {'mu': V.vec(lambda t: T.ZERO, g), 'nu': V.vec(lambda t: T.ZERO, g), 'count': T.ZERO}, p.a)
      ctx.eq('radam', 'term equal to the threshold %r, b2=%g' % (k, d), u, ref(e1))
  # around the default threshold
  tx = ctx.call('scale_by_radam', threshold=ctx.h('threshold', ('range', 4.0, 8.0)))
  check_rec(ctx, 'radam', 'scale_by_radam defaults', tx,
            Rec(fields, z, radam_step(c(.9), c(.999), c(1e-8), c(0.), th)), steps=2)
  tx = ctx.call('scale_by_radam')
  check_rec(ctx, 'radam', 'scale_by_radam default threshold', tx,
            Rec(fields, z, radam_step(c(.9), c(.999), c(1e-8), c(0.), c(5.))), steps=2)


def check(ctx):
  ctx.section('adam', adam, False)
  ctx.section('adam kw', adam, True)
  ctx.section('adam defaults', adam_defaults)
  ctx.section('belief', belief)
  ctx.section('yogi', yogi, False)
  ctx.section('yogi defaults', yogi, True)
  ctx.section('radam', radam)
