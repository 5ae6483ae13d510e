"""Every optimizer alias is interpreted next to its documented pipeline (the public scale_by_*
transformation given each documented argument, followed by analyser-side weight decay, trust ratio,
momentum and learning rate) with a distinct symbol per argument, positionally, by keyword and with
defaults, constant and scheduled learning rates, over several steps; the graphs must be equal."""
from .. import registry as R
from .. import terms as T, values as V
from ..spec import L, sqrt, total, TREE
from ..values import Arr
from .C32 import m1

RULE = """value-graph equality of each alias with its documented pipeline; one distinct symbol per argument"""
FLOOR = 300
SHAPE = {'w': L(2, 2), 'b': (L(2),), 'z': [L()]}


class Ref:
  """Analyser-side stateful member: fn(updates, state, params, step) -> updates, state."""

  def __init__(self, fn, init=lambda p: None): self.fn, self.init0 = fn, init


def lr(x):
  """Minus the learning rate; a schedule is a python callable on steps."""
  def f(u, s, p, k):
    v = x(k) if callable(x) else x
    return m1(lambda a: a * (0.0 - v), u), s
  return Ref(f)


def trace(decay, nesterov):
  def f(u, s, p, k):
    t = m1(lambda a, b: a + decay * b, u, s)
    return (m1(lambda a, b: a + decay * b, u, t) if nesterov else t), t
  return Ref(f, lambda p: m1(lambda a: V.vec(lambda t: T.ZERO, a), p))


def decay(w): return Ref(lambda u, s, p, k: (m1(lambda a, b: a + w * b, u, p), s))


def trust(mn):
  nrm = lambda a: T.maximum(T.unary('sqrt', total(a * a)), mn)
  def f(u, s, p, k):
    return m1(lambda a, b: a * T.ite(T.lor(T.eq(nrm(a), T.ZERO), T.eq(nrm(b), T.ZERO)), T.ONE, T.div(nrm(b), nrm(a))), u, p), s
  return Ref(f)


def t_(x): return x.item() if isinstance(x, Arr) else T.as_term(x)


# name -> (positional order after learning_rate with (symbol domain, default), builder(ctx, a, lr))
UNIT, SMALL, POS = 'unit', 'small', 'pos'
ALIASES = {
    'adabelief': ([('b1', UNIT, .9), ('b2', UNIT, .999), ('eps', SMALL, 1e-8)],
                  lambda c, a, r: [c.call('scale_by_belief', b1=a['b1'], b2=a['b2'], eps=a['eps']), lr(r)]),
    'adagrad': ([('initial_accumulator_value', POS, .1), ('eps', SMALL, 1e-7)],
                lambda c, a, r: [c.call('scale_by_rss', initial_accumulator_value=a['initial_accumulator_value'], eps=a['eps']), lr(r)]),
    'adam': ([('b1', UNIT, .9), ('b2', UNIT, .999), ('eps', SMALL, 1e-8), ('eps_root', SMALL, 0.)],
             lambda c, a, r: [c.call('scale_by_adam', b1=a['b1'], b2=a['b2'], eps=a['eps'], eps_root=a['eps_root']), lr(r)]),
    'adamw': ([('b1', UNIT, .9), ('b2', UNIT, .999), ('eps', SMALL, 1e-8), ('eps_root', SMALL, 0.), ('weight_decay', POS, 1e-4)],
              lambda c, a, r: [c.call('scale_by_adam', b1=a['b1'], b2=a['b2'], eps=a['eps'], eps_root=a['eps_root']), decay(t_(a['weight_decay'])), lr(r)]),
    'lamb': ([('b1', UNIT, .9), ('b2', UNIT, .999), ('eps', SMALL, 1e-6), ('eps_root', SMALL, 0.), ('weight_decay', POS, 0.)],
             lambda c, a, r: [c.call('scale_by_adam', b1=a['b1'], b2=a['b2'], eps=a['eps'], eps_root=a['eps_root']), decay(t_(a['weight_decay'])), trust(T.ZERO), lr(r)]),
    'noisy_sgd': ([('eta', POS, .01), ('gamma', UNIT, .55), ('seed', ('ints', 0, 99), 0)],
                  lambda c, a, r: [c.call('add_noise', eta=a['eta'], gamma=a['gamma'], seed=a['seed']), lr(r)]),
    'radam': ([('b1', UNIT, .9), ('b2', ('range', .9, .99), .999), ('eps', SMALL, 1e-8), ('eps_root', SMALL, 0.), ('threshold', ('range', 1.5, 2.5), 5.)],
              lambda c, a, r: [c.call('scale_by_radam', b1=a['b1'], b2=a['b2'], eps=a['eps'], eps_root=a['eps_root'], threshold=a['threshold']), lr(r)]),
    'yogi': ([('b1', UNIT, .9), ('b2', UNIT, .999), ('eps', SMALL, 1e-3)],
             lambda c, a, r: [c.call('scale_by_yogi', b1=a['b1'], b2=a['b2'], eps=a['eps']), lr(r)]),
}


def mom(a): return [] if a.get('momentum') is None else [trace(t_(a['momentum']), a.get('nesterov', False))]


def rms(c, a, r):
  f = 'scale_by_stddev' if a['centered'] else 'scale_by_rms'
  return [c.call(f, decay=a['decay'], eps=a['eps'], initial_scale=a['initial_scale']), lr(r)] + mom(a)


def fromage(c, a, r):
  m = T.div(T.ONE, T.unary('sqrt', T.add(T.ONE, T.mul(r, r))))
  return [trust(t_(a['min_norm'])), lr(T.mul(r, m)), decay(T.sub(m, T.ONE))]


STRUCT = {
    'rmsprop': ([('decay', UNIT, .9), ('eps', SMALL, 1e-8), ('initial_scale', POS, 0.), ('centered', (False, True), False), ('momentum', (None, UNIT), None), ('nesterov', (False, True), False)], rms),
    'sgd': ([('momentum', (None, UNIT), None), ('nesterov', (False, True), False)], lambda c, a, r: mom(a) + [lr(r)]),
    'dpsgd': ([('l2_norm_clip', ('range', .5, 3.), None), ('noise_multiplier', POS, None), ('seed', ('ints', 0, 99), None), ('momentum', (None, UNIT), None), ('nesterov', (False, True), False)],
              lambda c, a, r: [c.call('differentially_private_aggregate', l2_norm_clip=a['l2_norm_clip'], noise_multiplier=a['noise_multiplier'], seed=a['seed'])] + mom(a) + [lr(r)]),
    'sm3': ([('momentum', UNIT, .9)], lambda c, a, r: [c.call('scale_by_sm3', b1=a['momentum']), lr(r)]),
    'fromage': ([('min_norm', ('range', .05, .4), 1e-6)], fromage),
}
FLOAT_LR = ('sm3', 'fromage')
REQUIRED = {'dpsgd': 3}


def variants(spec):
  """Assignments of structural arguments."""
  out = [{}]
  for nm, dom, _ in spec:
    if isinstance(dom, tuple) and dom and dom[0] in (None, False): out = [dict(o, **{nm: d}) for o in out for d in dom]
  return out


def args_of(ctx, spec, var):
  a = {}
  for nm, dom, _ in spec:
    if nm in var:
      a[nm] = ctx.h(nm, var[nm]) if isinstance(var[nm], str) else var[nm]
    else:
      a[nm] = ctx.h(nm, dom, 'int') if isinstance(dom, tuple) and dom[0] == 'ints' else ctx.h(nm, dom)
  return a


def rates(ctx, name, lrkind):
  if lrkind == 'constant':
    x = ctx.h('lr', ('range', .1, 2.))
    return x, x.item()
  if lrkind == 'array':
    x = ctx.arr('lr', (), ('range', .1, 2.), weak=True)
    return x, x.item()
  return R.sched(ctx), lambda k: T.app('sched', [T.const(k)])


def compare(ctx, label, name, build, a, call, lrkind, steps, dom='real', shape=SHAPE):
  given, rate = rates(ctx, name, lrkind)
  tx = call(given)
  members = build(ctx, a, rate)
  p = ctx.tree('p', shape)
  s = ctx.init(tx, p)
  ms = [m.init0(p) if isinstance(m, Ref) else ctx.init(m, p) for m in members]
  v = ctx.val(96)
  for k in range(steps):
    g = ctx.tree('g%d' % k, R.batched(shape, 2) if name == 'dpsgd' else shape, dom=dom)
    u, s = ctx.update(tx, g, s, p)
    e = g
    for j, m in enumerate(members):
      if isinstance(m, Ref): e, ms[j] = m.fn(e, ms[j], p, k)
      else: e, ms[j] = ctx.update(m, e, ms[j], p)
    ctx.eq(name, '%s, step %d' % (label, k + 1), u, e, v)


def alias(ctx, name, spec, build, var, how, lrkind):
  a = args_of(ctx, spec, var)
  f = ctx.f(name)
  ctx.note_anchor('optax.' + name, f)
  if how == 'positional': call = lambda r: ctx.call(f, r, *[a[n] for n, _, _ in spec])
  elif how == 'keyword': call = lambda r: ctx.call(f, learning_rate=r, **a)
  else: call = lambda r: ctx.call(f, **dict(reversed([('learning_rate', r)] + list(a.items()))))
  tag = ', '.join('%s=%s' % (k, x if not isinstance(x, str) else 'given') for k, x in var.items())
  compare(ctx, '%s %s, %s rate%s' % (name, how, lrkind, ', ' + tag if tag else ''), name, build, a, call, lrkind, 3)


def defaults(ctx, name, spec, build, only, lrkind, dom):
  """Arguments named in `only` given by keyword, the others at their documented default."""
  a, kw = {}, {}
  req = [n for n, _, _ in spec[:REQUIRED.get(name, 0)]]
  for nm, d, default in spec:
    if nm == only or nm in req:
      d = d if not (isinstance(d, tuple) and d[0] is None) else d[1]
      if isinstance(d, tuple) and d[0] is False: x = True
      else: x = ctx.h(nm, d, 'int') if isinstance(d, tuple) and d[0] == 'ints' else ctx.h(nm, d)
      a[nm] = kw[nm] = x
    else: a[nm] = default
  f = ctx.f(name)
  ctx.note_anchor('optax.' + name, f)
  compare(ctx, '%s, %s given, %s rate, %s gradients' % (name, only or 'nothing else', lrkind, 'ordinary' if dom == 'real' else 'tiny'), name, build, a,
          lambda r: ctx.call(f, r, **kw), lrkind, 2, dom)


def schedule_steps(ctx, name, spec, build):
  """A schedule is evaluated at 0, 1, 2, ...; equal to the constant alias of that value at that step (stateless aliases)."""
  seen = []
  def sch(c):
    seen.append(V.step_term(c))
    return Arr(V.oarr(T.app('sched', [V.step_term(c)])), 'float32', True, True)
  kw = {n: ctx.h(n, d, 'int' if isinstance(d, tuple) and d[0] == 'ints' else 'float') for n, d, _ in spec[:REQUIRED.get(name, 0)]}
  tx = ctx.call(name, ctx.prim(sch, 'sched'), **kw)
  p = ctx.tree('p', SHAPE)
  s = ctx.init(tx, p)
  del seen[:]
  for k in range(4):
    n = len(seen)
    _, s = ctx.update(tx, ctx.tree('g', R.batched(SHAPE, 2) if name == 'dpsgd' else SHAPE), s, p)
    now = seen[n:]
    ctx.true('schedule', '%s: schedule evaluated at %d in step %d' % (name, k, k + 1),
             bool(now) and all(t.op == 'c' and t.val == k for t in now), 'evaluated at %s' % [T.show(t, 3) for t in now])


def check(ctx):
  for table in (ALIASES, STRUCT):
    for name, (spec, build) in table.items():
      kinds = ('constant',) if name in FLOAT_LR else ('constant', 'schedule')
      for var in variants(spec):
        for lk in kinds:
          for how in ('positional', 'keyword', 'shuffled'):
            ctx.section('%s %s %s %s' % (name, var, lk, how), alias, name, spec, build, var, how, lk)
      if name not in FLOAT_LR: ctx.section('%s array rate' % name, alias, name, spec, build, variants(spec)[0], 'keyword', 'array')
      for only in [None] + [n for n, _, _ in spec]:
        for dom in ('real', ('range', 1e-7, 1e-6)):
          ctx.section('%s defaults %s %s' % (name, only, dom), defaults, name, spec, build, only, kinds[0], dom)
      ctx.section('%s defaults schedule' % name, defaults, name, spec, build, None, kinds[-1], 'real')
      if name not in FLOAT_LR: ctx.section('%s schedule steps' % name, schedule_steps, name, spec, build)


_ = sqrt, TREE
