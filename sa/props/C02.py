"""Shape/dtype/structure inference over every public gradient transformation, wrapper and alias: the
abstract interpreter propagates JAX's promotion lattice (weak types included) through init and two
updates, on trees of every rank and single or mixed precision, inside and outside compilation, and
decides that updates have the gradients' signature and that init's state signature is a fixed point."""
from .. import registry as R
from .. import values as V
from ..spec import L, TREE
from ..values import Arr

RULE = """type inference: signature(updates) = signature(gradients), signature(next state) = signature(state); no cond or loop carry mismatch"""
TECHNIQUE = 'static shape/dtype/structure inference (abstract interpretation over the promotion lattice) as a fixed-point check'
FLOOR = 400


def typed(spec, d):
  n = [0]
  cyc = d if isinstance(d, (list, tuple)) else [d]

  def go(s):
    if isinstance(s, dict): return {k: go(x) for k, x in s.items()}
    if isinstance(s, list): return [go(x) for x in s]
    if isinstance(s, tuple): return tuple(go(x) for x in s)
    if isinstance(s, L):
      n[0] += 1
      return L(*s.shape, dtype=cyc[(n[0] - 1) % len(cyc)])
    return s
  return go(spec)


SHAPES = {
    'ranks': {'s': L(), 'v': L(2), 'm': (L(2, 2), L(1, 2)), 'k': [L(2, 1, 2)], 'c': L(2, 1, 1, 2)},
    'nested': TREE, 'bare': L(2, 2), 'scalar': L(), 'none': {'a': None, 'b': L(2), 'c': (L(), None)}, 'ones': [L(1), L(1, 1)],
}
SINGLE = ('float32', 'float16', 'bfloat16')
MIX = (('float16', 'float32', 'bfloat16'), ('float32', 'float16'), ('bfloat16', 'float32', 'float16'))


def aval(x):
  x = V.as_arr(x)
  return '%s%s' % (x.dtype, list(x.shape))


def mismatch(a, b, what):
  ta, tb = V.tree_structure(a), V.tree_structure(b)
  if ta != tb: return '%s: structure is %s instead of %s' % (what, V.describe(b)[:300], V.describe(a)[:300])
  for k, (x, y) in enumerate(zip(V.tree_leaves(a), V.tree_leaves(b))):
    if not isinstance(x, (Arr, int, float)) or not isinstance(y, (Arr, int, float)):
      if x is y: continue
      return '%s: leaf %d is not an array (%r, %r)' % (what, k, x, y)
    X, Y = V.as_arr(x), V.as_arr(y)
    if X.shape != Y.shape: return '%s: leaf %d has shape %s instead of %s' % (what, k, Y.shape, X.shape)
    if X.dtype != Y.dtype:
      return '%s: leaf %d has dtype %s instead of %s' % (what, k, Y.dtype, X.dtype)
  return None


def one(ctx, e, shape, dtypes, jit, given):
  tree = typed(SHAPES[shape], dtypes)
  label = '%s%s on %s of %s%s%s' % ('64-bit: ' if V.Config.x64 else '', e.name, shape, '/'.join(dtypes) if isinstance(dtypes, tuple) else dtypes, ' compiled' if jit else '', ', params given' if given and e.params != 'required' else '')
  ctx.anchor = label
  I = ctx.I

  def go():
    tx = e.build(ctx)
    p = ctx.tree('p', tree)
    par = R.pair(ctx, p, ctx.tree('q', tree)) if e.pair else p
    I.jit = jit
    s0 = ctx.init(tx, par)
    g = ctx.tree('g', R.batched(tree, 2) if e.batch else tree)
    want = par if e.pair else p if e.batch else g
    s = s0
    for k in (1, 2):
      u, s1 = ctx.update(tx, g, s, *([par] if given or e.params == 'required' else []))
      m = mismatch(want, u, 'updates of step %d' % k)
      ctx.true('updates', '%s, step %d' % (label, k), m is None, m)
      m = mismatch(s0, s1, 'state after step %d' % k)
      ctx.true('state', '%s, step %d' % (label, k), m is None, m)
      s = s1
    new = ctx.call('apply_updates', par, u)
    m = mismatch(par, new, 'updated params')
    ctx.true('params', label, m is None, m)
  n = len(I.events)
  try:
    ctx.guard(label, go)
  finally:
    I.jit = False
  ctx.no_events('joins', label, ('cond-mismatch', 'carry-mismatch'), n)


def entry(ctx, e):
  mixes = MIX if e.group != 'inject' else ()
  for shape in SHAPES:
    if e.batch and shape == 'none': pass
    for d in SINGLE + mixes:
      if not ctx.thorough and shape not in ('ranks', 'scalar') and d not in ('float16', MIX[0]): continue
      for jit in (False, True):
        for given in ((False, True) if e.params == 'optional' and (ctx.thorough or (shape == 'ranks' and d == 'float32')) else (False,)):
          one(ctx, e, shape, d, jit, given)


def double(ctx, e):
  """With 64-bit types enabled: double-precision leaves, alone and next to single-precision ones."""
  V.Config.x64 = True
  try:
    for shape, d in (('ranks', 'float64'), ('scalar', 'float64'), ('ranks', 'float32'), ('ranks', ('float64', 'float32', 'bfloat16'))):
      if e.group == 'inject' and not isinstance(d, str): continue
      for jit in (False, True): one(ctx, e, shape, d, jit, e.params == 'optional' and jit)
  finally:
    V.Config.x64 = False


def accumulators(ctx, which, opt):
  """accumulator_dtype: state has that dtype from init on, updates the promotion of it and the gradients'."""
  jnp = ctx.I.load('jax.numpy')
  for acc in ('bfloat16', 'float16', 'float32'):
    for how, arg in (('dtype', ctx.I.getattr(jnp, acc)), ('name', acc)):
      for d in ('float32', 'bfloat16', MIX[0]):
        for jit in (False, True):
          label = '%s(%s) with accumulator_dtype %s (%s) on %s%s' % (which, opt, acc, how, d, ' compiled' if jit else '')
          tx = ctx.call(which, 0.9, opt, **{'accumulator_dtype': arg}) if how == 'dtype' else ctx.call(which, 0.9, opt, arg)
          tree = typed(SHAPES['ranks'], d)
          ctx.I.jit = jit
          p, g = ctx.tree('p', tree), ctx.tree('g', tree)
          to = lambda t: V.tree_map(lambda x: Arr(x.a, acc), t)
          s = ctx.init(tx, p)
          m = mismatch(to(p), ctx.I.getattr(s, which), 'initial accumulator')
          ctx.true('state', label + ', initially', m is None, m)
          for k in (1, 2):
            u, s = ctx.update(tx, g, s)
            m = mismatch(to(p), ctx.I.getattr(s, which), 'accumulator after step %d' % k)
            ctx.true('state', '%s, step %d' % (label, k), m is None, m)
            m = mismatch(V.tree_map(lambda x: Arr(x.a, V.promote((x.dtype, False), (acc, False))[0]), g), u, 'updates of step %d' % k)
            ctx.true('updates', '%s, step %d' % (label, k), m is None, m)
          ctx.I.jit = False


def check(ctx):
  for w in ('trace', 'ema'):
    for o in (False, True): ctx.section('accumulators %s %s' % (w, o), accumulators, w, o)
  for e in R.everything(): ctx.section(e.name, entry, e)
  for e in R.everything(): ctx.section('64-bit ' + e.name, double, e)
