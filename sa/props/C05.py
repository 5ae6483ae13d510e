"""Params requirement and forwarding: every public transformation is interpreted with and without
params (those whose graphs depend on params must raise when they are omitted or None, the others must
accept both with the same result), and every wrapper, nested two deep, is interpreted around an
uninterpreted params-dependent member whose received params must be the true ones."""
import itertools

from .. import registry as R
from .. import terms as T, values as V
from ..opaque import Elementwise
from ..spec import L, TREE
from ..values import Arr

RULE = """omitted params raise exactly for params-dependent transformations; the params received by an uninterpreted member are those given (restricted or flattened as documented)"""
TECHNIQUE = 'static dataflow of params through the interpreted call graph (uninterpreted members), value-graph equality'
FLOOR = 200
SHAPE = {'s': L(), 'v': L(2), 'm': (L(2, 2),), 'k': [L(2, 1, 2)]}


def depends(tree, roots):
  names = {t.val[0] for r in V.tree_leaves(roots) for t in r.terms()}
  return any(t.op == 'v' and t.val[0] in names for t in T.walk(V.all_terms(tree)))


def need(ctx, e):
  ctx.anchor = e.name
  tx = e.build(ctx)
  p, q = ctx.tree('p', SHAPE), ctx.tree('q', SHAPE)
  par = R.pair(ctx, p, q) if e.pair else p
  s = ctx.init(tx, par)
  g = ctx.tree('g', R.batched(SHAPE, 2) if e.batch else SHAPE)
  if e.params == 'required':
    for how, a in (('omitted', ()), ('None', (None,))):
      ctx.expect_raise('required', '%s: params %s' % (e.name, how), lambda: ctx.update(tx, g, s, *a), None)
    fresh = R.pair(ctx, ctx.tree('P', SHAPE), ctx.tree('Q', SHAPE)) if e.pair else ctx.tree('P', SHAPE)
    u, _ = ctx.update(tx, g, s, fresh)
    st, dep = s, False
    for k in range(3):
      v, st = ctx.update(tx, ctx.tree('h%d' % k, R.batched(SHAPE, 2) if e.batch else SHAPE), st, fresh)
      dep = dep or depends(v, fresh)
    ctx.true('required', '%s: uses the params it is given' % e.name, dep, 'the updates do not depend on the params')
    kw = ctx.I.call(ctx.I.getattr(tx, 'update'), [g, s], {'params': fresh})
    ctx.eq('required', '%s: params by keyword' % e.name, kw[0], u, ctx.val(16))
  else:
    u, s1 = ctx.update(tx, g, s)
    un, sn = ctx.update(tx, g, s, None)
    up, sp = ctx.update(tx, g, s, ctx.tree('P', SHAPE))
    ctx.eq('optional', '%s: updates with params None' % e.name, un, u, ctx.val(16))
    ctx.eq('optional', '%s: updates with params' % e.name, up, u, ctx.val(16))
    ctx.eq('optional', '%s: state with params' % e.name, sp, s1, ctx.val(16))


def neutral(ctx):
  """The requirement does not depend on the hyperparameters: also with the neutral ones."""
  mk = {
      'add_decayed_weights()': lambda: ctx.call('add_decayed_weights'), 'add_decayed_weights(0)': lambda: ctx.call('add_decayed_weights', 0),
      'additive_weight_decay(0.0)': lambda: ctx.call('additive_weight_decay', 0.0),
      'adamw(weight_decay=0)': lambda: ctx.call('adamw', 0.1, weight_decay=0.0), 'lamb(weight_decay=0)': lambda: ctx.call('lamb', 0.1, weight_decay=0.0),
      'fromage(min_norm=0)': lambda: ctx.call('fromage', 0.1, 0.0), 'scale_by_trust_ratio(0)': lambda: ctx.call('scale_by_trust_ratio', 0.0),
      'adaptive_grad_clip(large)': lambda: ctx.call('adaptive_grad_clip', 1e30), 'keep_params_nonnegative': lambda: ctx.call('keep_params_nonnegative'),
      'adamw(rate 0)': lambda: ctx.call('adamw', 0.0), 'lamb(rate 0)': lambda: ctx.call('lamb', 0.0),
  }
  g = ctx.tree('g', SHAPE)
  p = ctx.tree('p', SHAPE)
  for nm, f in mk.items():
    tx = ctx.guard(nm, f)
    if tx is None: continue
    s = ctx.init(tx, p)
    for how, a in (('omitted', ()), ('None', (None,))):
      ctx.expect_raise('required', '%s: params %s' % (nm, how), lambda: ctx.update(tx, g, s, *a), None)
    ctx.guard(nm + ' with params', ctx.update, tx, g, s, p)


WRAPS = {
    'chain': lambda c, t: c.call('chain', c.call('identity'), t),
    'chain of one': lambda c, t: c.call('chain', t),
    'apply_if_finite': lambda c, t: c.call('apply_if_finite', t, 3),
    'flatten': lambda c, t: c.call('flatten', t),
    'masked': lambda c, t: c.call('masked', t, c.prim(lambda tr: V.tree_map(lambda _: True, tr), 'mask')),
    'maybe_update': lambda c, t: c.call('maybe_update', t, c.prim(lambda s: Arr(V.vec(lambda x: T.le(T.ZERO, x), V.as_arr(s)), 'bool', False, True), 'should')),
    'MultiSteps': lambda c, t: c.I.call(c.I.getattr(c.call('MultiSteps', t, 1), 'gradient_transformation'), []),
    'MultiSteps(2)': lambda c, t: c.I.call(c.I.getattr(c.call('MultiSteps', t, 2), 'gradient_transformation'), []),
    'inject_hyperparams': lambda c, t: c.I.call(c.call('inject_hyperparams', ident_factory(c, t)), [0.5]),
    'lookahead': lambda c, t: c.call('lookahead', t, 3, 0.5),
}

ANYTREE = ('chain', 'chain of one', 'inject_hyperparams')


def ident_factory(ctx, t):
  """def factory(lr): return t  -- as an interpreted function with a signature."""
  return ctx.scripted('def factory(lr):\n  return make(lr)\n', make=ctx.prim(lambda lr: t, 'make'))['factory']


def forward(ctx, names):
  """Wrappers from outermost to innermost around a params-dependent member."""
  label = ' around '.join(names)
  ctx.anchor = label
  e = Elementwise(ctx, 'e')
  t = e.tx
  for n in reversed(names): t = WRAPS[n](ctx, t)
  pairs = names.count('lookahead')
  p = ctx.tree('p', TREE)
  par = p
  if pairs: par = R.pair(ctx, p, ctx.tree('q', TREE))
  s = ctx.init(t, par)
  fresh = ctx.tree('P', TREE)
  fp = R.pair(ctx, fresh, ctx.tree('Q', TREE)) if pairs else fresh
  del e.updates[:]
  for k in range(2):
    u, s = ctx.update(t, ctx.tree('g%d' % k, TREE), s, fp)
  ctx.true('forwarding', label + ': member is run', len(e.updates) > 0, 'the wrapped member is never updated')
  got = [a[2] for a in e.updates]
  ctx.true('forwarding', label + ': member gets params', all(x is not None for x in got), 'the wrapped member receives no params')
  for i, x in enumerate(got):
    if x is None: continue
    one = 'flatten' in names
    a, b = [z.id for z in V.all_terms(x)], [z.id for z in V.all_terms(fresh)]
    ok = a == b if one and 'masked' not in names else sorted(a) == sorted(b)
    ctx.true('forwarding', '%s: true params, call %d' % (label, i + 1), ok and (not one or len(V.tree_leaves(x)) == 1), 'the member receives %s' % V.describe(x))


def required_inside(ctx, names):
  """A composition around a params-dependent optimizer raises without params and works with them."""
  label = ' around '.join(names) + ' around adamw'
  ctx.anchor = label
  t = ctx.call('adamw', 0.1)
  for n in reversed(names): t = WRAPS[n](ctx, t)
  p = ctx.tree('p', TREE)
  par = R.pair(ctx, p, ctx.tree('q', TREE)) if 'lookahead' in names else p
  s = ctx.init(t, par)
  g = ctx.tree('g', TREE)
  ctx.expect_raise('composition', label + ': params omitted', lambda: ctx.update(t, g, s), None)
  r = ctx.guard(label, ctx.update, t, g, s, par, rule='composition')
  us = [] if r is None else [r[0]]
  for _ in range(5):
    if r is not None:
      r = ctx.guard(label, ctx.update, t, g, r[1], par, rule='composition')
      if r is not None: us.append(r[0])
  ctx.true('composition', label + ': depends on params', any(depends(u, p) for u in us), 'the updates do not depend on the params')


def check(ctx):
  ctx.section('neutral hyperparameters', neutral)
  for e in R.everything(): ctx.section(e.name, need, e)
  ws = list(WRAPS)
  for n in ws:
    ctx.section(n, forward, (n,))
    ctx.section(n + ' required', required_inside, (n,))
  for a, b in itertools.product(ws, ws):
    # lookahead works on pairs of params: only wrappers indifferent to the structure may contain it
    if b == 'lookahead' and a not in ANYTREE: continue
    ctx.section('%s, %s' % (a, b), forward, (a, b))
  if ctx.thorough:
    for a, b, c in itertools.product(ws, ws, ws):
      if 'lookahead' == b and (a not in ANYTREE or c == 'lookahead') or 'lookahead' == c and not {a, b} <= set(ANYTREE): continue
      ctx.section('%s, %s, %s' % (a, b, c), forward, (a, b, c))
      ctx.section('%s, %s, %s required' % (a, b, c), required_inside, (a, b, c))
