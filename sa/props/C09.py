"""Step counters: every integer leaf of every state is discovered from init's value graph; its next
value from an unknown count is decided equal to the saturating successor (or to the documented
conditional or periodic count), at zero, in between and at the largest int32, inside and outside
compilation; evaluation of int32 arithmetic wraps as on the machine."""
from .. import registry as R
from .. import terms as T, values as V
from ..opaque import Opaque
from ..spec import L, ref
from ..stepspec import clamp_inc
from ..values import ANT, Arr

RULE = """initial counter = 0; next counter graph = saturating successor of the counter under the documented condition"""
FLOOR = 150
SHAPE = {'s': L(), 'v': L(2), 'm': (L(2, 2),)}
MAX = T.INT32_MAX


def ints(state): return [(k, l) for k, l in enumerate(V.tree_leaves(state)) if V.is_int(V.as_arr(l).dtype) and V.as_arr(l).dtype != 'uint32' and V.as_arr(l).dtype != 'bool']


def replaced(state, f):
  leaves, td = V.tree_flatten(state)
  return V.tree_unflatten(td, [f(k, V.as_arr(l)) for k, l in enumerate(leaves)])


def i32(t): return Arr(V.oarr(t), 'int32', False, True)


def each(ctx, e, periodic=None):
  ctx.anchor = e.name
  tx = e.build(ctx)
  p = ctx.tree('p', SHAPE)
  s0 = ctx.init(tx, p)
  g = ctx.tree('g', R.batched(SHAPE, 2) if e.batch else SHAPE)
  cs = ints(s0)
  v = ctx.val(128)
  a = [p] if e.params == 'required' else []
  for k, l in cs:
    l = V.as_arr(l)
    ctx.true('initial', '%s: counter %d is an int32 scalar' % (e.name, k), l.shape == () and l.dtype == 'int32', 'counter is %s%s' % (l.dtype, list(l.shape)))
    ctx.eq('initial', '%s: counter %d is zero' % (e.name, k), Arr(l.a, l.dtype), ref(T.ZERO, 'int32'))
  if not cs: return
  for jit in (False, True):
    ctx.I.jit = jit
    try:
      w = ' compiled' if jit else ''
      hv = replaced(s0, lambda k, l: V.sym('c%d' % k, (), 'bigcount', 'int32') if any(k == c for c, _ in cs) else V.sym('st%d' % k, l.shape, {'bool': 'bool', 'uint32': 'key'}.get(l.dtype, 'pos'), l.dtype))
      _, s1 = ctx.update(tx, g, hv, *a)
      ls = V.tree_leaves(s1)
      for k, _ in cs:
        c = T.var('c%d' % k, 'bigcount')
        nx = clamp_inc(c) if periodic is None else periodic(c)
        ctx.eq('advance', '%s: counter %d from any count%s' % (e.name, k, w), ls[k], ref(nx, 'int32'), v if periodic is None else ctx.val(128, **{'c%d' % k: ('ints', 0, 2)}), dtypes=True)
      if periodic is None:
        for start in (0, 1, 1000, MAX - 1, MAX):
          hv2 = replaced(s0, lambda k, l: i32(T.const(start)) if any(k == c for c, _ in cs) else l)
          _, s1 = ctx.update(tx, g, hv2, *a)
          ls = V.tree_leaves(s1)
          for k, _ in cs: ctx.eq('saturation', '%s: counter %d after %d%s' % (e.name, k, start, w), ls[k], ref(T.const(min(start + 1, MAX)), 'int32'), ctx.val(4), dtypes=True)
      # successive steps from init
      s = s0
      for n in range(4):
        _, s = ctx.update(tx, ctx.tree('g%d' % n, R.batched(SHAPE, 2) if e.batch else SHAPE), s, *a)
        ls = V.tree_leaves(s)
        for k, _ in cs: ctx.eq('advance', '%s: counter %d after %d steps%s' % (e.name, k, n + 1, w), ls[k], ref(T.const((n + 1) if periodic is None else (n + 1) % 3), 'int32'), ctx.val(4), dtypes=True)
    finally:
      ctx.I.jit = False


def fields(ctx, s, names):
  ok = isinstance(s, ANT) and set(names) <= set(s.fields)
  if not ok: ctx.notes.append('state fields %s not found in %s' % (names, V.describe(s)))
  return ok


def put(s, **kw): return ANT(s.cls, [kw[f] if f in kw else s.get(f) for f in s.fields])


def apply_if_finite(ctx):
  m = Opaque(ctx, 'in')
  tx = ctx.call('apply_if_finite', m.tx, 3)
  p = ctx.tree('p', SHAPE)
  s0 = ctx.init(tx, p)
  if not fields(ctx, s0, ('notfinite_count', 'last_finite', 'total_notfinite')): return
  for f in ('notfinite_count', 'total_notfinite'): ctx.eq('initial', 'apply_if_finite: %s' % f, s0.get(f), ref(T.ZERO, 'int32'), dtypes=True)
  g = ctx.tree('g', SHAPE, dom=('set', (1.0, 2.0, 0.5, -1.0, -2.0, 3.0, -3.0, 0.1, 0.2, 4.0, 5.0, float('inf'), float('nan'))))
  fin = T.TRUE
  for l in V.tree_leaves(g):
    for t in l.terms(): fin = T.land(fin, T.isfinite(t))
  for jit in (False, True):
    ctx.I.jit = jit
    try:
      for lab, dom in (('any count', 'bigcount'), ('the largest count', ('set', (float(MAX), float(MAX - 1))))):
        n, t = V.sym('nf', (), dom, 'int32'), V.sym('t', (), dom, 'int32')
        _, s1 = ctx.update(tx, g, put(s0, notfinite_count=n, total_notfinite=t))
        w = ' from %s%s' % (lab, ' compiled' if jit else '')
        v = ctx.val(256, nf=dom, t=dom)
        ctx.eq('conditional', 'apply_if_finite: consecutive count' + w, s1.get('notfinite_count'), ref(T.ite(fin, T.ZERO, clamp_inc(n.item())), 'int32'), v, dtypes=True)
        ctx.eq('conditional', 'apply_if_finite: total count' + w, s1.get('total_notfinite'), ref(T.ite(fin, t.item(), clamp_inc(t.item())), 'int32'), v, dtypes=True)
    finally:
      ctx.I.jit = False


def multi_steps(ctx):
  m = Opaque(ctx, 'in')
  tx = ctx.call('MultiSteps', m.tx, 3)
  p = ctx.tree('p', SHAPE)
  s0 = ctx.init(tx, p)
  if not fields(ctx, s0, ('mini_step', 'gradient_step')): return
  for f in ('mini_step', 'gradient_step'): ctx.eq('initial', 'MultiSteps: %s' % f, s0.get(f), ref(T.ZERO, 'int32'), dtypes=True)
  g = ctx.tree('g', SHAPE)
  for jit in (False, True):
    ctx.I.jit = jit
    try:
      for lab, dom in (('any count', 'bigcount'), ('the largest count', ('set', (float(MAX), float(MAX - 1))))):
        n, t = V.sym('n', (), ('ints', 0, 2), 'int32'), V.sym('t', (), dom, 'int32')
        _, s1 = ctx.update(tx, g, put(s0, mini_step=n, gradient_step=t), p)
        w = ' from %s%s' % (lab, ' compiled' if jit else '')
        v = ctx.val(256, t=dom)
        emit = T.eq(n.item(), T.const(2))
        ctx.eq('conditional', 'MultiSteps: mini step' + w, s1.get('mini_step'), ref(T.ite(emit, T.ZERO, T.add(n.item(), T.ONE)), 'int32'), v, dtypes=True)
        ctx.eq('conditional', 'MultiSteps: gradient step' + w, s1.get('gradient_step'), ref(T.ite(emit, clamp_inc(t.item()), t.item()), 'int32'), v, dtypes=True)
    finally:
      ctx.I.jit = False


def maybe(ctx):
  m = Opaque(ctx, 'in')
  tx = ctx.call('maybe_update', m.tx, R.pred(ctx))
  p = ctx.tree('p', SHAPE)
  s0 = ctx.init(tx, p)
  if not fields(ctx, s0, ('step',)): return
  ctx.eq('initial', 'maybe_update: step', s0.get('step'), ref(T.ZERO, 'int32'), dtypes=True)
  g = ctx.tree('g', SHAPE)
  for jit in (False, True):
    ctx.I.jit = jit
    try:
      for lab, dom in (('any count', 'bigcount'), ('the largest count', ('set', (float(MAX), float(MAX - 1))))):
        t = V.sym('t', (), dom, 'int32')
        _, s1 = ctx.update(tx, g, put(s0, step=t))
        ctx.eq('conditional', 'maybe_update: step from %s%s' % (lab, ' compiled' if jit else ''), s1.get('step'), ref(clamp_inc(t.item()), 'int32'), ctx.val(128, t=dom), dtypes=True)
    finally:
      ctx.I.jit = False


def look(ctx):
  m = Opaque(ctx, 'in')
  tx = ctx.call('lookahead', m.tx, 3, 0.5)
  p, q = ctx.tree('p', SHAPE), ctx.tree('q', SHAPE)
  par = R.pair(ctx, p, q)
  s0 = ctx.init(tx, par)
  if not fields(ctx, s0, ('steps_since_sync',)): return
  ctx.eq('initial', 'lookahead: steps since sync', Arr(V.as_arr(s0.get('steps_since_sync')).a, 'int32'), ref(T.ZERO, 'int32'))
  t = V.sym('t', (), ('ints', 0, 2), 'int32')
  _, s1 = ctx.update(tx, ctx.tree('g', SHAPE), put(s0, steps_since_sync=t), par)
  ctx.eq('conditional', 'lookahead: steps since sync', s1.get('steps_since_sync'), ref(T.ite(T.eq(t.item(), T.const(2)), T.ZERO, T.add(t.item(), T.ONE)), 'int32'), ctx.val(64))


def increment(ctx):
  c = ctx.arr('c', (), 'bigcount', 'int32')
  for nm in ('_src.numerics.safe_int32_increment', '_src.utils.safe_int32_increment'):
    for jit in (False, True):
      ctx.I.jit = jit
      try:
        ctx.eq('increment', nm + (' compiled' if jit else ''), ctx.call(nm, c), ref(clamp_inc(c.item()), 'int32'), ctx.val(256), dtypes=True)
        for n in (0, 1, 77, MAX - 1, MAX):
          ctx.eq('increment', '%s of %d%s' % (nm, n, ' compiled' if jit else ''), ctx.call(nm, i32(T.const(n))), ref(T.const(min(n + 1, MAX)), 'int32'), dtypes=True)
      finally:
        ctx.I.jit = False


def check(ctx):
  for e in R.transforms() + R.aliases() + R.injected():
    ctx.section(e.name, each, e, (lambda c: T.ite(T.eq(c, T.const(2)), T.ZERO, T.add(c, T.ONE))) if e.factory == 'apply_every' else None)
  for f in (apply_if_finite, multi_steps, maybe, look, increment): ctx.section(f.__name__, f)
