"""Recurrence specifications: init equation + one step from an arbitrary state
(induction over histories) + short trajectories from init (observational)."""
import numpy as np

from . import terms as T
from . import values as V
from .spec import L, TREE, ref
from .values import ANT, Arr


def clamp_inc(c):
  """count + 1, saturating at the largest int32."""
  return T.ite(T.lt(c, T.const(T.INT32_MAX)), T.add(c, T.ONE), T.const(T.INT32_MAX))


class Rec:
  """fields: {name: 'count' | ('tree', dom)}; init(p_leaf)->{name: leaf};
  step(g, st, p)->(u, {name: leaf}) on object arrays of one leaf, with scalar
  counters in st as Terms."""

  def __init__(self, fields, init, step, params=False, extra=None):
    self.fields, self.init, self.step, self.params = fields, init, step, params
    self.extra = extra


def leafwise(tree_like, f):
  """Builds {name: tree} from per-leaf dicts."""
  leaves, td = V.tree_flatten(tree_like)
  outs = [f(k, l) for k, l in enumerate(leaves)]
  return td, outs


def run_ref_init(rec, params):
  leaves, td = V.tree_flatten(params)
  st = {}
  for n, kind in rec.fields.items():
    if kind == 'count': st[n] = ref(T.ZERO, 'int32')
  per = [rec.init(l.a) for l in leaves]
  for n, kind in rec.fields.items():
    if kind != 'count':
      st[n] = V.tree_unflatten(td, [ref(np.broadcast_to(np.asarray(x[n], dtype=object), l.shape), l.dtype) for x, l in zip(per, leaves)])
  return st


def run_ref_step(rec, g, st, params):
  gl, td = V.tree_flatten(g)
  pl = V.tree_leaves(params) if params is not None else [None] * len(gl)
  cnt = {n: st[n].item() for n, k in rec.fields.items() if k == 'count'}
  trees = {n: V.tree_leaves(st[n]) for n, k in rec.fields.items() if k != 'count'}
  us, new = [], {n: [] for n in trees}
  for i, gg in enumerate(gl):
    s = dict(cnt)
    s.update({n: trees[n][i].a for n in trees})
    uu, nn = rec.step(gg.a, s, pl[i].a if pl[i] is not None else None)
    us.append(ref(uu, gg.dtype))
    for n in trees: new[n].append(ref(nn[n], gg.dtype))
  out = {n: ref(clamp_inc(c), 'int32') for n, c in cnt.items()}
  out.update({n: V.tree_unflatten(td, ls) for n, ls in new.items()})
  return V.tree_unflatten(td, us), out


def havoc(ctx, rec, params):
  st = {}
  for n, kind in rec.fields.items():
    if kind == 'count': st[n] = ctx.arr('s.' + n, (), 'count', 'int32')
    else:
      leaves, td = V.tree_flatten(params)
      st[n] = V.tree_unflatten(td, [V.sym('s.%s%d' % (n, i), l.shape, kind[1], l.dtype) for i, l in enumerate(leaves)])
  return st


def check_rec(ctx, rule, name, tx, rec, tree=None, steps=3, val=None, with_params=None):
  """States the whole family of obligations for one configuration."""
  tree = tree or TREE
  params = ctx.tree('p', tree)
  pass_p = rec.params if with_params is None else with_params
  v = val or ctx.val()
  s0 = ctx.guard(name + ' init', ctx.init, tx, params)
  if s0 is None: return
  ref0 = run_ref_init(rec, params)
  named = isinstance(s0, ANT) and set(rec.fields) <= set(s0.fields)
  if named:
    for n in rec.fields: ctx.eq(rule, '%s: initial %s' % (name, n), s0.get(n), ref0[n], v)
    st = havoc(ctx, rec, params)
    vals = [st[f] if f in st else s0.get(f) for f in s0.fields]
    g = ctx.tree('g', tree)
    r = ctx.guard(name + ' update', ctx.update, tx, g, ANT(s0.cls, vals), *([params] if pass_p else []))
    if r is not None:
      eu, es = run_ref_step(rec, g, st, params)
      ctx.eq(rule, '%s: update from any state' % name, r[0], eu, v)
      if isinstance(r[1], ANT) and set(rec.fields) <= set(r[1].fields):
        for n in rec.fields: ctx.eq(rule, '%s: next %s from any state' % (name, n), r[1].get(n), es[n], v)
      else:
        ctx.violate(rule, '%s: next state' % name, 'state type changes to %s' % V.describe(r[1]))
  else:
    ctx.notes.append('%s: state fields are not the known ones; checked by trajectories only' % name)
    steps += 1
  # trajectory from init: purely observational
  s, rs = s0, ref0
  for k in range(steps):
    g = ctx.tree('g%d' % k, tree)
    r = ctx.guard('%s step %d' % (name, k + 1), ctx.update, tx, g, s, *([params] if pass_p else []))
    if r is None: return
    uu, s = r
    eu, rs = run_ref_step(rec, g, rs, params)
    ctx.eq(rule, '%s: update of step %d from init' % (name, k + 1), uu, eu, v)


SMALL = {'a': L(2), 'b': (L(),)}
HALF = {'a': L(2, dtype='bfloat16'), 'b': (L(dtype='float16'),)}
_ = Arr
