"""Random keys (linear-use analysis): keys are symbolic terms derived from the seed by split/fold_in;
over init and many steps every key term is consumed at most once, every drawn noise entry appears in
exactly one update entry, noise is added entry by entry with the documented standard deviation, and
the key state depends only on the seed and the number of steps."""
from .. import registry as R
from .. import terms as T, values as V
from ..spec import L, ref, TREE, WIDE
from ..values import Arr

RULE = """linear use of symbolic keys; value-graph equality of the noise term; independence of the key state from data"""
TECHNIQUE = 'static linear-use (typestate) analysis of PRNG key terms over the interpreted call graph, plus value-graph equality of the noise'
FLOOR = 60

TREES = {'wide': WIDE, 'nested': TREE, 'scalars': [L(), L(), L()], 'bare': L(3), 'scalar': L(), 'same shapes': {'a': L(2, 2), 'b': L(2, 2), 'c': (L(2, 2), L(2, 2))}, 'none': {'a': None, 'b': L(2), 'c': L(2)},
         'half': {'w': L(2, dtype='float16'), 'b': L(2, dtype='bfloat16')}, 'one leaf': [L(2, 1, 2)], 'high ranks': [L(2, 1, 2, 1), (L(1, 2, 1, 2, 1),)]}


def samples(t):
  """Random-draw leaves below a term."""
  return [x for x in T.walk([t]) if x.op == 'app' and x.val[0].startswith('rng:') and not x.val[0].startswith(('rng:split', 'rng:seed', 'rng:fold'))]


def key_leaves(state): return [l for l in V.tree_leaves(state) if isinstance(l, Arr) and l.dtype == 'uint32']


def deps(terms): return {x.val[0] for x in T.walk(terms) if x.op == 'v'}


BUILD = {
    'add_noise': (lambda c, s: c.call('add_noise', c.h('eta', 'pos'), c.h('gamma', 'unit'), s), False),
    'noisy_sgd': (lambda c, s: c.call('noisy_sgd', c.h('lr', 'pos'), c.h('eta', 'pos'), c.h('gamma', 'unit'), s), False),
    'differentially_private_aggregate': (lambda c, s: c.call('differentially_private_aggregate', c.h('clip', 'pos'), c.h('mult', 'pos'), s), True),
    'dpsgd': (lambda c, s: c.call('dpsgd', c.h('lr', 'pos'), c.h('clip', 'pos'), c.h('mult', 'pos'), s), True),
    'dpsgd momentum': (lambda c, s: c.call('dpsgd', c.h('lr', 'pos'), c.h('clip', 'pos'), c.h('mult', 'pos'), s, 0.9, True), True),
}


def linear(ctx, name, tname, steps, jit):
  build, batch = BUILD[name]
  tree = TREES[tname]
  lab = '%s on %s%s' % (name, tname, ' compiled' if jit else '')
  ctx.anchor = lab
  seed = ctx.h('seed', ('ints', 0, 1000), 'int')
  tx = build(ctx, seed)
  I = ctx.I
  I.scratch['key_uses'] = []
  p = ctx.tree('p', tree)
  I.jit = jit
  try:
    s = ctx.init(tx, p)
    keys = [s]
    for k in range(steps):
      g = ctx.tree('g%d' % k, R.batched(tree, 2) if batch else tree)
      n0 = len(I.scratch['key_uses'])
      u, s = ctx.update(tx, g, s)
      keys.append(s)
      # each drawn entry lands in one update entry of this step (the momentum of dpsgd accumulates older ones)
      now = {x[0].id for x in I.scratch['key_uses'][n0:] if not x[1].startswith(('split', 'fold'))}
      seen, dup, none = {}, None, None
      for j, l in enumerate(V.tree_leaves(u)):
        for i, t in enumerate(l.terms()):
          mine = [x for x in samples(t) if x.args[0].id in now]
          if not mine: none = (j, i)
          for x in mine:
            if x.id in seen: dup = (seen[x.id], (j, i))
            seen[x.id] = (j, i)
      ctx.true('noise', '%s: step %d: every entry has noise' % (lab, k + 1), none is None, 'entry %s has no noise of this step' % (none,))
      ctx.true('noise', '%s: step %d: independent noise per entry' % (lab, k + 1), dup is None, 'entries %s and %s share one draw' % (dup or (None, None)))
  finally:
    I.jit = False
  uses, again = {}, []
  for t, what, where in I.scratch['key_uses']:
    if t.id in uses: again.append('%s is consumed by %s at %s and by %s at %s' % ((T.show(t, 5),) + uses[t.id] + (what, where)))
    uses.setdefault(t.id, (what, where))
  ctx.true('linear', lab + ': each key is consumed at most once', not again, '; '.join(again[:3]))
  ctx.true('linear', lab + ': randomness is drawn', len(uses) > 0, 'no key is consumed')
  allk = [t for st in keys for l in key_leaves(st) for t in l.terms()]
  ctx.true('state', lab + ': the key state depends on nothing but the seed', deps(allk) <= {'seed'}, 'it depends on %s' % sorted(deps(allk) - {'seed'}))
  per = [tuple(t.id for l in key_leaves(st) for t in l.terms()) for st in keys]
  ctx.true('state', lab + ': the key state advances every step', len(set(per)) == len(per), 'the stored key repeats')
  ctx.true('state', lab + ': a key is stored', all(per), 'no key in the state')


def other_seed(ctx, name):
  """The seed decides the noise; the same seed gives the same noise."""
  build, batch = BUILD[name]
  p = ctx.tree('p')
  g = ctx.tree('g', R.batched(TREE, 2) if batch else TREE)
  out = []
  for s in (3, 3, 4, 0):
    tx = build(ctx, s)
    st = ctx.init(tx, p)
    u, st = ctx.update(tx, g, st)
    u2, _ = ctx.update(tx, g, st)
    out.append([t.id for t in V.all_terms(u) + V.all_terms(u2)])
  ctx.true('seed', name + ': same seed, same noise', out[0] == out[1], 'the noise differs between two optimizers of the same seed')
  ctx.true('seed', name + ': other seed, other noise', out[0] != out[2] and out[0] != out[3] and out[2] != out[3], 'the noise does not depend on the seed')


def std(ctx, tname):
  """add_noise: g + sqrt(eta/(1+t)^gamma) * (standard normal of the leaf's shape)."""
  tree = TREES[tname]
  eta, gam = ctx.h('eta', 'pos'), ctx.h('gamma', ('range', 0.1, 1.5))
  for how, tx in (('positional', ctx.call('add_noise', eta, gam, 5)), ('keywords', ctx.call('add_noise', eta=eta, gamma=gam, seed=5))):
    p = ctx.tree('p', tree)
    s = ctx.init(tx, p)
    for k in range(3):
      g = ctx.tree('g%d' % k, tree)
      u, s = ctx.update(tx, g, s, *([p] if k == 1 else []))
      noise(ctx, 'add_noise on %s (%s), step %d' % (tname, how, k + 1), u, g, eta.item() / (T.const(k + 1) ** gam.item()))
  # any count
  s0 = ctx.init(tx, p)
  names = getattr(s0, 'fields', ())
  if 'count' in names:
    from ..values import ANT
    c = ctx.arr('c', (), 'count', 'int32')
    st = ANT(s0.cls, [c if f == 'count' else s0.get(f) for f in s0.fields])
    u, _ = ctx.update(tx, g, st)
    noise(ctx, 'add_noise on %s, any step' % tname, u, g, eta.item() / ((c.item() + 1) ** gam.item()))


def noise(ctx, lab, u, g, var):
  exp = []
  for a, b in zip(V.tree_leaves(u), V.tree_leaves(g)):
    def f(x, y):
      z = samples(x)
      z = z[0] if len(z) == 1 else T.var('missing draw')
      return T.add(y, T.mul(T.unary('sqrt', var), z))
    exp.append(Arr(V.vec(f, a, b), b.dtype))
  ctx.eq('deviation', lab, u, V.tree_unflatten(V.tree_flatten(g)[1], exp), dtypes=True)
  kinds = {x.val[0].split(':')[1] for l in V.tree_leaves(u) for t in l.terms() for x in samples(t)}
  ctx.true('deviation', lab + ': the noise is standard normal', kinds == {'normal'}, 'draws of %s' % sorted(kinds))


def check(ctx):
  n = 6 if ctx.thorough else 4
  TREES.update(ctx.directed('transform.py', 'privacy.py'))
  for name in BUILD:
    for tname in TREES:
      for jit in (False, True): ctx.section('%s %s %s' % (name, tname, jit), linear, name, tname, n, jit)
    ctx.section('seed ' + name, other_seed, name)
  for tname in TREES: ctx.section('std ' + tname, std, tname)


_ = ref
