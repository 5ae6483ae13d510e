"""apply_if_finite is analysed around an opaque (uninterpreted) wrapped transformation from an
arbitrary state; the extracted graphs of updates, inner state and counters are decided equal, over
gradients including NaN and infinities in any subset of entries, to the documented case split."""
from .. import terms as T, values as V
from ..opaque import Opaque
from ..spec import L, ref, TREE, WIDE
from ..stepspec import clamp_inc
from ..values import ANT, Arr

RULE = """value-graph equality with the documented case split around an uninterpreted inner transformation,
any state, gradients with NaN/Inf in any subset of entries; trajectories from init"""
FLOOR = 60
TREES = {'wide': WIDE, 'nested': TREE, 'bare': L(2), 'scalar': L(), 'empty leaf': {'a': L(2), 'e': L(0)}, 'one per dtype': {'a': L(2, dtype='float16'), 'b': L(dtype='bfloat16'), 'c': L(2)}}


def sel(c, a, b):
  """Leafwise choice between trees of one structure."""
  return V.tree_map(lambda x, y: Arr(V.vec(lambda p, q: T.ite(c, p, q), x, y), x.dtype), a, b)


def all_finite(g):
  c = T.TRUE
  for t in V.all_terms(g): c = T.land(c, T.isfinite(t))
  return c


def zeros(g): return V.tree_map(lambda l: Arr(V.vec(lambda t: T.ZERO, l), l.dtype), g)


def step(m, g, s, p, limit):
  fin = all_finite(g)
  nf = T.ite(fin, T.ZERO, clamp_inc(s['notfinite_count']))
  ok = T.lor(fin, T.gt(nf, limit))
  u, i = m.pure(g, s['inner_state'], p)
  return sel(ok, u, zeros(g)), dict(
      notfinite_count=nf, last_finite=fin, total_notfinite=T.ite(fin, s['total_notfinite'], clamp_inc(s['total_notfinite'])),
      inner_state=sel(ok, i, s['inner_state']))


COUNTERS = ('notfinite_count', 'last_finite', 'total_notfinite')


def as_tree(s):
  return {k: (s[k] if k == 'inner_state' else ref(s[k], 'int32')) for k in s}


def any_state(ctx, tree, given, sym, label):
  n = 256
  v = ctx.val(n)
  m = Opaque(ctx, 'in')
  lim = ctx.h('limit', ('ints', 0, 4), 'int') if sym is None else sym
  tx = ctx.call('apply_if_finite', m.tx, lim)
  limit = lim.item() if sym is None else T.const(sym)
  p = ctx.tree('p', tree)
  s0 = ctx.init(tx, p)
  if not (isinstance(s0, ANT) and set(s0.fields) == set(COUNTERS) | {'inner_state'}):
    ctx.notes.append('state fields renamed; trajectories only')
    return
  ctx.eq('init', label + ': initial consecutive count', s0.get('notfinite_count'), ref(T.ZERO, 'int32'))
  ctx.eq('init', label + ': initial total', s0.get('total_notfinite'), ref(T.ZERO, 'int32'))
  ctx.eq('init', label + ': initially finite', s0.get('last_finite'), ref(T.TRUE))
  ctx.eq('init', label + ': inner state initialised from params', s0.get('inner_state'), m.pure_init(p))
  st = dict(notfinite_count=ctx.arr('nf', (), ('ints', 0, 6), 'int32'), last_finite=ctx.arr('lf', (), 'bool', 'bool'),
            total_notfinite=ctx.arr('tn', (), 'count', 'int32'), inner_state=m.havoc('s', p))
  g = ctx.tree('g', tree, dom='full')
  r = ctx.update(tx, g, ANT(s0.cls, [st[f] for f in s0.fields]), *([p] if given else []))
  rs = {k: (x if k == 'inner_state' else x.item()) for k, x in st.items()}
  eu, es = step(m, g, rs, p if given else None, limit)
  ctx.eq('finite', label + ': updates', r[0], eu, v, dtypes=True, ieee=True)
  for k in es:
    ctx.eq('finite', '%s: next %s' % (label, k), r[1].get(k), es[k] if k == 'inner_state' else ref(es[k], 'int32'), v, ieee=True)


def history(ctx, limit, pattern, tag):
  """From init, a concrete pattern of finite/non-finite gradients (values symbolic)."""
  m = Opaque(ctx, 'in')
  tx = ctx.call('apply_if_finite', m.tx, limit)
  t = {'a': L(2), 'b': L()}
  p = ctx.tree('p', t)
  s = ctx.init(tx, p)
  rs = dict(notfinite_count=T.ZERO, last_finite=T.TRUE, total_notfinite=T.ZERO, inner_state=m.pure_init(p))
  v = ctx.val(48)
  for k, bad in enumerate(pattern):
    g = ctx.tree('g%d' % k, t)
    if bad: g['b' if k % 2 else 'a'] = ctx.arr('bad%d' % k, (2,) if k % 2 == 0 else (), ('set', (float('nan'), float('inf'), -float('inf'))))
    u, s = ctx.update(tx, g, s, p)
    eu, rs = step(m, g, rs, p, T.const(limit))
    ctx.eq('history', 'limit %d, %s history: updates of step %d' % (limit, tag, k + 1), u, eu, v, ieee=True)
    if isinstance(s, ANT):
      for f in COUNTERS:
        if f in s.fields: ctx.eq('history', 'limit %d, %s history: %s after step %d' % (limit, tag, f, k + 1), s.get(f), ref(rs[f], 'int32'), v, ieee=True)


def saturate(ctx):
  """Counters at the end of the int32 range."""
  m = Opaque(ctx, 'in')
  tx = ctx.call('apply_if_finite', m.tx, 3)
  p = ctx.tree('p', {'a': L(2)})
  s0 = ctx.init(tx, p)
  if not isinstance(s0, ANT) or set(COUNTERS) - set(s0.fields): return
  st = {f: ctx.arr('c' + f, (), 'bigcount', 'int32') for f in COUNTERS}
  st['last_finite'] = ctx.arr('lf', (), 'bool', 'bool')
  st['inner_state'] = m.havoc('s', p)
  g = ctx.tree('g', {'a': L(2)}, dom='full')
  u, s = ctx.update(tx, g, ANT(s0.cls, [st[f] for f in s0.fields]), p)
  eu, es = step(m, g, {k: (x if k == 'inner_state' else x.item()) for k, x in st.items()}, p, T.const(3))
  v = ctx.val(256)
  for f in COUNTERS: ctx.eq('saturate', '%s at the end of its range' % f, s.get(f), ref(es[f], 'int32'), v, ieee=True)
  ctx.eq('saturate', 'updates at the end of the counters', u, eu, v, ieee=True)


def magnitude(ctx, tree, label):
  """Finite is finite whatever the magnitude: entries whose sums or squares overflow, or vanish."""
  m = Opaque(ctx, 'in')
  tx = ctx.call('apply_if_finite', m.tx, 2)
  p = ctx.tree('p', tree)
  s = ctx.init(tx, p)
  for nm, dom in (('huge', (1.7e308, 1.5e308, 1e300)), ('huge of both signs', (1.7e308, -1.7e308, 1e308, 3.0)), ('tiny', (1e-320, -1e-310, 1e-300)), ('zeros', (0.0, -0.0)),
                  ('huge and non-finite', (1.7e308, 1.5e308, float('inf'), float('nan'), -float('inf')))):
    g = ctx.tree('g', tree, dom=('set', dom))
    v = ctx.val(64)
    u, s1 = ctx.update(tx, g, s, p)
    eu, es = step(m, g, dict(notfinite_count=T.ZERO, last_finite=T.TRUE, total_notfinite=T.ZERO, inner_state=m.pure_init(p)), p, T.const(2))
    ctx.eq('magnitude', '%s, %s entries: updates' % (label, nm), u, eu, v, ieee=True)
    for f in COUNTERS:
      if f in getattr(s1, 'fields', ()): ctx.eq('magnitude', '%s, %s entries: %s' % (label, nm, f), s1.get(f), ref(es[f], 'int32'), v, ieee=True)


def check(ctx):
  TREES.update(ctx.directed('wrappers.py'))
  for nm, t in TREES.items(): ctx.section('magnitude ' + nm, magnitude, t, nm)
  for nm, t in TREES.items():
    for given in (True, False):
      ctx.section('any state %s %s' % (nm, given), any_state, t, given, None, '%s tree, params %s' % (nm, 'given' if given else 'omitted'))
  for lim in (0, 1, 5):
    ctx.section('limit %d' % lim, any_state, TREE, True, lim, 'limit %d' % lim)
  pats = {'isolated': [0, 1, 0, 0, 1, 0], 'long run': [1, 1, 1, 1, 1, 0, 1], 'runs': [0, 1, 1, 0, 1, 1, 1, 0]}
  for lim in (0, 1, 2):
    for tag, pt in pats.items():
      ctx.section('history %d %s' % (lim, tag), history, lim, pt, tag)
  ctx.section('saturate', saturate)
