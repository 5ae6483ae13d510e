"""Models of the external modules imported by optax."""
import functools
import itertools
import math
import operator

import numpy as np

from . import interp as IT
from . import jaxmodel as J
from . import nplib
from . import terms as T
from . import values as V
from .values import Arr, ANT, AbsRaise, ExcVal

P = IT.Prim


class ArrayType(IT.Opaque):
  """jnp.ndarray / np.ndarray / jax.core.Tracer as isinstance targets."""

  def __init__(self, name, test):
    super().__init__(name)
    self.test = test

  def check(self, I, x):
    return isinstance(x, Arr) and not x.py and self.test(I, x)


ARRAY = ArrayType('jax.Array', lambda I, x: not x.np)
NPARRAY = ArrayType('numpy.ndarray', lambda I, x: x.np)
TRACER = ArrayType('jax.core.Tracer', lambda I, x: not x.np and x.traced and I.jit)


def _tab(I, isnp):
  k = 'nptab' if isnp else 'jnptab'
  if k not in I.scratch:
    t = nplib.build(I, isnp)
    t['ndarray'] = NPARRAY if isnp else ARRAY
    if not isnp:
      t['DeviceArray'] = t['Array'] = ARRAY
    I.scratch[k] = t
  return I.scratch[k]


def numpy_fn(I, name, isnp): return _tab(I, isnp)[name]
def jnp(I, name): return _tab(I, False)[name].fn
def matmul(I, a, b): return _tab(I, False)['matmul'].fn(a, b)
def full_like(I, x, v): return _tab(I, x.np)['full_like'].fn(x, v)


def make(I, name):
  """ModModel for a dotted module name, or None."""
  f = BUILDERS.get(name)
  if f is None:
    return None
  return IT.ModModel(name, f(I))


def traced_(I, *xs):
  return I.jit or any(isinstance(x, Arr) and x.traced for x in xs)


def weak_ok(d): return d


# ---------------------------------------------------------------------------
# tree utilities


def tree_fns(I):
  def isl(is_leaf):
    if is_leaf is None: return None
    def g(x):
      c = I.truth(I.call(is_leaf, [x]))
      if not isinstance(c, bool): I.unsupported('unknown is_leaf')
      return c
    return g

  def tree_map(f, tree, *rest, is_leaf=None):
    return V.tree_map(lambda *xs: I.call(f, list(xs)), tree, *rest, is_leaf=isl(is_leaf))

  def tree_leaves(t, is_leaf=None): return V.tree_leaves(t, isl(is_leaf))

  def tree_flatten(t, is_leaf=None):
    l, d = V.tree_flatten(t, isl(is_leaf))
    return l, d

  def tree_structure(t, is_leaf=None): return V.tree_structure(t, isl(is_leaf))
  def tree_unflatten(d, leaves): return V.tree_unflatten(d, I.iterate(leaves))

  def tree_reduce(f, tree, initializer=IT._MISSING, is_leaf=None):
    ls = V.tree_leaves(tree, isl(is_leaf))
    if initializer is not IT._MISSING: ls = [initializer] + ls
    if not ls: I.raise_(TypeError, 'reduce() of empty iterable with no initial value')
    acc = ls[0]
    for x in ls[1:]: acc = I.call(f, [acc, x])
    return acc

  def tree_all(t, is_leaf=None):
    return J._all_any(I, V.tree_leaves(t, isl(is_leaf)), True)

  def tree_transpose(outer, inner, tree):
    subs = V.flatten_up_to(outer, tree)
    cols = [V.flatten_up_to(inner, s) for s in subs]
    return V.tree_unflatten(inner, [V.tree_unflatten(outer, [c[i] for c in cols]) for i in range(inner.num_leaves)])

  def path_leaves(t, is_leaf=None):
    out = []
    def go(x, path):
      if is_leaf is not None and isl(is_leaf)(x):
        out.append((path, x))
        return
      n = V.node_children(x)
      if n is None:
        out.append((path, x))
        return
      k, m, ch = n
      keys = list(m) if k in ('dict', 'odict', 'ddict') else (m.nt_fields if k == 'nt' else list(range(len(ch))))
      for kk, c in zip(keys, ch): go(c, path + (KeyEntry(kk),))
    go(t, ())
    return out

  def tree_map_with_path(f, tree, *rest, is_leaf=None):
    ps = path_leaves(tree, is_leaf)
    d = V.tree_structure(tree, isl(is_leaf))
    others = [V.flatten_up_to(d, r) for r in rest]
    return V.tree_unflatten(d, [I.call(f, [p, x] + [o[i] for o in others]) for i, (p, x) in enumerate(ps)])

  t = dict(tree_map=tree_map, tree_multimap=tree_map, tree_leaves=tree_leaves, tree_flatten=tree_flatten,
           tree_structure=tree_structure, tree_unflatten=tree_unflatten, tree_reduce=tree_reduce, tree_all=tree_all,
           tree_transpose=tree_transpose, tree_map_with_path=tree_map_with_path,
           tree_leaves_with_path=path_leaves,
           tree_flatten_with_path=lambda t, is_leaf=None: (path_leaves(t, is_leaf), V.tree_structure(t, isl(is_leaf))),
           treedef_is_leaf=lambda d: d.kind == 'leaf')
  t = {k: P(f, k) for k, f in t.items()}

  def register(cls, flatten=None, unflatten=None):
    I.unsupported('register_pytree_node')
  t['register_pytree_node'] = t['register_pytree_node_class'] = P(register)

  def Partial(f, *a, **k): return IT.PartialV(f, a, k)
  t['Partial'] = P(Partial)
  t['PyTreeDef'] = V.TreeDef
  return t


class KeyEntry(IT.HostObj):
  def __init__(self, k): self.key = self.idx = self.name = k


# ---------------------------------------------------------------------------
# differentiation and batching


_FRESH = [0]


def fresh_like(x):
  """Fresh symbols in the shape of x; returns (Arr, vars)."""
  _FRESH[0] += 1
  x = V.as_arr(x)
  a = np.empty(x.shape, dtype=object)
  vs = []
  for idx in np.ndindex(*x.shape):
    v = T.var('ad%d[%s]' % (_FRESH[0], ','.join(map(str, idx))), 'real')
    a[idx] = v
    vs.append(v)
  if x.shape == (): a[()] = vs[0]
  d = x.dtype
  return Arr(a, d, x.weak, True), vs


def grad_setup(I, f, argnums, args, kwargs, what='grad'):
  """Calls f with fresh leaves in differentiated positions."""
  nums = argnums if isinstance(argnums, (tuple, list)) else (argnums,)
  nums = [I.as_index(n) for n in nums]
  args = list(args)
  mapping, groups = {}, []
  for n in nums:
    if not -len(args) <= n < len(args): I.raise_(ValueError, 'argnums out of range')
    leaves, td = V.tree_flatten(args[n])
    new, info = [], []
    for l in leaves:
      l = V.as_arr(l)
      if not V.is_float(l.dtype): I.raise_(TypeError, '%s requires real-valued inputs, got %s' % (what, l.dtype))
      fr, vs = fresh_like(l)
      for v, t in zip(vs, l.terms()): mapping[v] = t
      new.append(fr)
      info.append((l, vs))
    args[n] = V.tree_unflatten(td, new)
    groups.append((td, info))
  out = I.call(f, args, dict(kwargs))
  return out, mapping, groups


def back(x, mapping):
  """Substitutes the fresh symbols by the actual arguments."""
  def g(l):
    if not isinstance(l, Arr): return l
    ts = T.subst(l.terms(), mapping)
    return Arr(V.oarr(ts, l.shape) if l.shape else V.oarr(ts[0]), l.dtype, l.weak, True, l.py, l.np)
  return V.tree_map(g, x)


def jax_fns(I):
  t = {}

  def vg(f, argnums, has_aux, args, kwargs):
    out, mapping, groups = grad_setup(I, f, argnums, args, kwargs)
    aux = None
    if has_aux:
      out, aux = I.iterate(out)
    o = V.as_arr(out)
    if o.shape != (): I.raise_(TypeError, 'Gradient only defined for scalar-output functions. Output had shape: %s.' % (o.shape,))
    if not V.is_float(o.dtype): I.raise_(TypeError, 'grad requires real-valued outputs')
    allv = [v for _, info in groups for _, vs in info for v in vs]
    gs = T.subst(T.backward(o.item(), allv), mapping)
    k = 0
    res = []
    for td, info in groups:
      ls = []
      for l, vs in info:
        n = len(vs)
        a = V.oarr(gs[k:k + n], l.shape) if l.shape else V.oarr(gs[k])
        k += n
        ls.append(Arr(a, l.dtype, l.weak, True))
      res.append(V.tree_unflatten(td, ls))
    g = tuple(res) if isinstance(argnums, (tuple, list)) else res[0]
    return back(out, mapping), g, back(aux, mapping) if has_aux else None

  def value_and_grad(fun, argnums=0, has_aux=False, **kw):
    def vgf(*args, **kwargs):
      v, g, aux = vg(fun, argnums, has_aux, args, kwargs)
      return ((v, aux) if has_aux else v), g
    return P(vgf, 'value_and_grad(f)')

  def grad(fun, argnums=0, has_aux=False, **kw):
    def gf(*args, **kwargs):
      v, g, aux = vg(fun, argnums, has_aux, args, kwargs)
      return (g, aux) if has_aux else g
    return P(gf, 'grad(f)')

  def jac(fwd):
    def jacobian(fun, argnums=0, has_aux=False, **kw):
      def jf(*args, **kwargs):
        out, mapping, groups = grad_setup(I, fun, argnums, args, kwargs, 'jac')
        aux = None
        if has_aux: out, aux = I.iterate(out)

        def per_leaf(o):
          o = V.as_arr(o)
          res = []
          for td, info in groups:
            ls = []
            for l, vs in info:
              a = np.empty(o.shape + l.shape, dtype=object)
              flat = np.empty((o.size, len(vs)), dtype=object)
              for i, ot in enumerate(o.terms()):
                row = [T.diff(ot, v) for v in vs] if fwd else T.backward(ot, vs)
                for j, r in enumerate(row): flat[i, j] = r
              if a.size:
                sub = T.subst(list(flat.reshape(-1)), mapping)
                a = V.oarr(sub, o.shape + l.shape) if a.ndim else V.oarr(sub[0])
              ls.append(Arr(a, l.dtype if not fwd else o.dtype, False, True))
            res.append(V.tree_unflatten(td, ls))
          return tuple(res) if isinstance(argnums, (tuple, list)) else res[0]
        j = V.tree_map(per_leaf, out)
        return (j, back(aux, mapping)) if has_aux else j
      return P(jf, 'jac(f)')
    return jacobian

  def hessian(fun, argnums=0, has_aux=False, **kw):
    return jac(True)(jac(False)(fun, argnums, has_aux), argnums, has_aux)

  def jvp(fun, primals, tangents, has_aux=False):
    primals, tangents = I.iterate(primals), I.iterate(tangents)
    if V.tree_structure(list(primals)) != V.tree_structure(list(tangents)):
      I.raise_(TypeError, 'primal and tangent arguments to jax.jvp do not match tree structure')
    for p, q in zip(V.tree_leaves(list(primals)), V.tree_leaves(list(tangents))):
      p, q = V.as_arr(p), V.as_arr(q)
      if p.shape != q.shape: I.raise_(ValueError, 'jvp called with different primal and tangent shapes')
      if p.dtype != q.dtype: I.raise_(TypeError, 'primal and tangent arguments to jax.jvp do not match dtypes')
    out, mapping, groups = grad_setup(I, fun, tuple(range(len(primals))), primals, {}, 'jvp')
    aux = None
    if has_aux: out, aux = I.iterate(out)
    pairs = []
    for (td, info), tan in zip(groups, tangents):
      for (l, vs), tt in zip(info, V.flatten_up_to(td, tan)):
        pairs.extend(zip(vs, V.as_arr(tt).terms()))

    def tangent(o):
      o = V.as_arr(o)
      ts = []
      for ot in o.terms():
        acc = T.ZERO
        for v, q in pairs:
          d = T.diff(ot, v)
          if not T.is_c(d, 0): acc = T.add(acc, T.mul(d, q))
        ts.append(acc)
      ts = T.subst(ts, mapping)
      return Arr(V.oarr(ts, o.shape) if o.shape else V.oarr(ts[0]), o.dtype, False, True)
    tg = V.tree_map(tangent, out)
    r = (back(out, mapping), tg)
    return r + (back(aux, mapping),) if has_aux else r

  def vjp(fun, *primals, has_aux=False):
    out, mapping, groups = grad_setup(I, fun, tuple(range(len(primals))), primals, {}, 'vjp')
    aux = None
    if has_aux: out, aux = I.iterate(out)

    def pull(ct):
      res = []
      outs = V.tree_leaves(out)
      cts = V.flatten_up_to(V.tree_structure(out), ct)
      allv = [v for _, info in groups for _, vs in info for v in vs]
      acc = [T.ZERO] * len(allv)
      for o, c in zip(outs, cts):
        for ot, c1 in zip(V.as_arr(o).terms(), V.as_arr(c).terms()):
          acc = [T.add(a, b) for a, b in zip(acc, T.backward(ot, allv, c1))]
      acc = T.subst(acc, mapping)
      k = 0
      for td, info in groups:
        ls = []
        for l, vs in info:
          n = len(vs)
          ls.append(Arr(V.oarr(acc[k:k + n], l.shape) if l.shape else V.oarr(acc[k]), l.dtype, False, True))
          k += n
        res.append(V.tree_unflatten(td, ls))
      return tuple(res)
    o = back(out, mapping)
    return (o, P(pull, 'vjp_fn'), back(aux, mapping)) if has_aux else (o, P(pull, 'vjp_fn'))

  def linearize(fun, *primals):
    out, _ = jvp(fun, primals, V.tree_map(lambda x: full_like(I, V.as_arr(x), 0), tuple(primals)))
    return out, P(lambda *ts: jvp(fun, primals, ts)[1], 'jvp_fn')

  def vmap(fun, in_axes=0, out_axes=0, axis_name=None, axis_size=None, spmd_axis_name=None):
    def vf(*args, **kwargs):
      axes = list(in_axes) if isinstance(in_axes, (tuple, list)) else [in_axes] * len(args)
      if len(axes) != len(args): I.raise_(ValueError, 'vmap in_axes must match the positional arguments')
      def spread(ax, x):
        leaves, td = V.tree_flatten(x)
        if ax is None or isinstance(ax, (int, Arr)): return [I.as_index(ax)] * len(leaves)
        out = []
        def go(a, y):
          if a is None or isinstance(a, int): out.extend([a] * len(V.tree_leaves(y)))
          else:
            na, ny = V.node_children(a), V.node_children(y)
            for p, q in zip(na[2], ny[2]): go(p, q)
        go(ax, x)
        return out
      mapped = [(V.tree_flatten(x), spread(ax, x)) for x, ax in zip(args, axes)]
      kl, ktd = V.tree_flatten(kwargs)
      sizes = set()
      for (ls, _), axs in mapped:
        for l, ax in zip(ls, axs):
          if ax is not None:
            l = V.as_arr(l)
            if not -l.ndim <= ax < l.ndim:
              I.raise_(ValueError, 'vmap was requested to map its argument along axis %s, which implies that its rank should be at least %d' % (ax, ax + 1))
            sizes.add(l.shape[ax])
      for l in kl: sizes.add(V.as_arr(l).shape[0])
      if axis_size is not None: sizes.add(I.as_index(axis_size))
      if len(sizes) != 1:
        I.raise_(ValueError, 'vmap got inconsistent sizes for array axes to be mapped' if sizes else 'vmap must have at least one non-None value in in_axes')
      n = sizes.pop()

      def at(l, ax, i):
        if ax is None: return l
        l = V.as_arr(l)
        r = np.take(l.a, i, axis=ax)
        if not isinstance(r, np.ndarray): r = V.oarr(r)
        return Arr(r, l.dtype, l.weak, True)
      outs = []
      for i in range(n):
        call = [V.tree_unflatten(td, [at(l, ax, i) for l, ax in zip(ls, axs)]) for (ls, td), axs in mapped]
        kw = V.tree_unflatten(ktd, [at(l, 0, i) for l in kl])
        outs.append(I.call(fun, call, kw))
      if n == 0: I.unsupported('vmap over an empty axis')
      def stack(ax):
        def g(*xs):
          xs = [V.as_arr(x) for x in xs]
          if ax is None: return xs[0]
          return Arr(np.stack([x.a for x in xs], ax) if xs[0].ndim or True else None, xs[0].dtype, xs[0].weak, True)
        return g
      if isinstance(out_axes, (tuple, list)):
        return type(outs[0])(V.tree_map(stack(ax), *[o[k] for o in outs]) for k, ax in enumerate(out_axes))
      return V.tree_map(stack(out_axes), *outs)
    return P(vf, 'vmap(f)')

  def jit(fun=None, **kw):
    if fun is None: return P(lambda f: jit(f, **kw), 'jit')
    def run(*a, **k):
      saved, I.jit = I.jit, True
      try:
        sn = kw.get('static_argnums', ())
        sn = {sn} if isinstance(sn, int) else set(sn or ())
        a2 = [x if i in sn else V.tree_map(_trace, x) for i, x in enumerate(a)]
        kt = V.tree_map(_trace, {n: x for n, x in k.items() if n not in (kw.get('static_argnames') or ())})
        return V.tree_map(_trace, I.call(fun, a2, dict(k, **kt)))
      finally:
        I.jit = saved
    return P(run, 'jit(f)')

  def _trace(x):
    if isinstance(x, (Arr, int, float, bool)):
      x = V.as_arr(x)
      return Arr(x.a, x.dtype, x.weak, True)
    return x

  def eval_shape(f, *a, **k):
    return V.tree_map(lambda x: x, I.call(f, list(a), k))

  ident = lambda f=None, **kw: (P(lambda g: g, 'decorator') if f is None else f)
  t.update({k: P(v, k) for k, v in dict(
      grad=grad, value_and_grad=value_and_grad, jacfwd=jac(True), jacrev=jac(False), jacobian=jac(False),
      hessian=hessian, jvp=jvp, vjp=vjp, vmap=vmap, jit=jit, linearize=linearize, eval_shape=eval_shape,
      checkpoint=ident, remat=ident, named_call=ident, device_get=lambda x: x, device_put=lambda x, *a: x,
      block_until_ready=lambda x: x, ensure_compile_time_eval=lambda: IT.Opaque('ctx:eval')).items()})
  for k, v in tree_fns(I).items():
    if k.startswith('tree_'): t[k] = v
  t['tree'] = IT.ModModel('jax.tree', {
      'map': t['tree_map'], 'leaves': t['tree_leaves'], 'flatten': t['tree_flatten'], 'unflatten': t['tree_unflatten'],
      'structure': t['tree_structure'], 'reduce': t['tree_reduce'], 'all': t['tree_all'], 'transpose': t['tree_transpose']})
  t['Array'] = ARRAY
  t['ShapeDtypeStruct'] = IT.Opaque('jax.ShapeDtypeStruct')
  t['named_scope'] = P(lambda *a: IT.Opaque('ctx:scope'), 'named_scope')
  t['process_index'] = P(lambda: 0, 'process_index')
  t['config'] = IT.Opaque('jax.config', {'x64_enabled': V.Config.x64, 'jax_enable_x64': V.Config.x64})
  t['__version__'] = '0.4.18'
  for m in ('numpy', 'lax', 'random', 'nn', 'tree_util', 'dtypes', 'scipy', 'flatten_util', 'core', 'debug', 'errors'):
    mm = make(I, 'jax.' + m)
    if mm is not None:
      I.modules.setdefault('jax.' + m, mm)
      t[m] = I.modules['jax.' + m]

  def pure_callback(*a, **k):
    I.event('effect', 'host callback')
    I.unsupported('pure_callback')
  t['pure_callback'] = P(pure_callback)
  return t


# ---------------------------------------------------------------------------
# lax


def avals_mismatch(a, b):
  """None, or why branch outputs a, b cannot be joined by lax.cond."""
  ta, tb = V.tree_structure(a), V.tree_structure(b)
  if ta != tb: return 'output structures differ: %s vs %s' % (V.describe(a), V.describe(b))
  for x, y in zip(V.tree_leaves(a), V.tree_leaves(b)):
    if not isinstance(x, (Arr, int, float, bool)) or not isinstance(y, (Arr, int, float, bool)):
      return 'output leaf is not an array: %s' % J.tname(x if not isinstance(x, (Arr, int, float, bool)) else y)
    x, y = V.as_arr(x), V.as_arr(y)
    if x.shape != y.shape: return 'output shapes differ: %s vs %s' % (x.shape, y.shape)
    if x.dtype != y.dtype:
      if x.weak or y.weak:
        d, _ = V.promote((x.dtype, x.weak), (y.dtype, y.weak))
        if (x.weak or x.dtype == d) and (y.weak or y.dtype == d): continue
      return 'output dtypes differ: %s vs %s' % (V.describe(x), V.describe(y))
  return None


def join(I, c, a, b):
  def g(x, y):
    x, y = V.as_arr(x), V.as_arr(y)
    d, w = (x.dtype, x.weak and y.weak) if x.dtype == y.dtype else V.promote((x.dtype, x.weak), (y.dtype, y.weak))
    x, y = V.cast(x, d), V.cast(y, d)
    return Arr(V.vec(lambda p, q: T.ite(c, p, q), x, y), d, w, True)
  return V.tree_map(g, a, b)


def pred_term(I, p, what):
  p = V.as_arr(p)
  if p.shape != (): I.raise_(TypeError, 'Pred must be a scalar, got shape %s' % (p.shape,))
  if what == 'cond' and V.is_complex(p.dtype): I.raise_(TypeError, 'Pred type')
  return T.n2b(p.item()) if p.dtype != 'bool' else p.item()


def lax_fns(I):
  jt = _tab(I, False)
  t = {}

  def as_traced(x):
    def g(l):
      if isinstance(l, (Arr, int, float, bool)):
        l = V.as_arr(l)
        return Arr(l.a, l.dtype, l.weak, True)
      I.raise_(TypeError, 'Value %s is not a valid JAX type' % J.tname(l))
    return V.tree_map(g, x)

  def sub(f, ops):
    """Traces a sub-function (its operands become tracers)."""
    saved, I.jit = I.jit, True
    try:
      return I.call(f, [as_traced(o) for o in ops])
    finally:
      I.jit = saved

  def cond(pred, *args, **kw):
    if 'operand' in kw or 'true_fun' in kw or 'false_fun' in kw:
      rest = list(args)
      tf = kw['true_fun'] if 'true_fun' in kw else rest.pop(0)
      ff = kw['false_fun'] if 'false_fun' in kw else rest.pop(0)
      ops = [kw['operand']] if 'operand' in kw else rest
    elif len(args) == 4 and not J.callable_(args[1]) and J.callable_(args[0]) and J.callable_(args[3]):
      # legacy: cond(pred, true_operand, true_fun, false_operand, false_fun) has args[0] operand
      tf, ff, ops = args[0], args[1], list(args[2:])
    elif len(args) == 4 and J.callable_(args[1]) and J.callable_(args[3]) and not J.callable_(args[0]):
      c = pred_term(I, pred, 'cond')
      a = sub(args[1], [args[0]])
      b = sub(args[3], [args[2]])
      return finish(c, a, b)
    else:
      tf, ff, ops = args[0], args[1], list(args[2:])
    c = pred_term(I, pred, 'cond')
    I.n_joins += 1
    a = gated(c, True, tf, ops)
    b = gated(c, False, ff, ops)
    return finish(c, a, b)

  def gated(c, pol, f, ops):
    """Both branches of a cond are traced unconditionally (no path condition)."""
    return sub(f, ops)

  def finish(c, a, b):
    m = avals_mismatch(a, b)
    if m is not None:
      I.event('cond-mismatch', m)
      I.raise_(TypeError, 'true_fun and false_fun output must have identical types: ' + m)
    return join(I, c, a, b)

  def switch(index, branches, *ops, operand=IT._MISSING, **kw):
    if operand is not IT._MISSING: ops = (operand,)
    idx = V.as_arr(index)
    if not V.is_int(idx.dtype): I.raise_(TypeError, 'Index type must be an integer')
    outs = [sub(b, list(ops)) for b in I.iterate(branches)]
    ti = idx.item()
    r = outs[-1]
    for i in range(len(outs) - 2, -1, -1):
      m = avals_mismatch(outs[i], r)
      if m: I.raise_(TypeError, 'branch outputs differ: ' + m)
      r = join(I, T.le(ti, T.const(i)), outs[i], r)
    return r

  def carry_check(init, out, what):
    m = avals_mismatch(init, out)
    if m is not None:
      I.event('carry-mismatch', m)
      I.raise_(TypeError, '%s body_fun output and input must have identical types: %s' % (what, m))

  def while_loop(cond_fun, body_fun, init_val):
    s = as_traced(init_val)
    states, conds = [s], []
    for n in range(400):
      c = pred_term(I, sub(cond_fun, [s]), 'while')
      if c.op == 'c' and not c.val: break
      new = sub(body_fun, [s])
      carry_check(s, new, 'while_loop')
      new = V.tree_map(lambda o, x: V.cast(V.as_arr(x), V.as_arr(o).dtype, V.as_arr(o).weak), s, new)
      s = as_traced(new)
      conds.append(c)
      states.append(s)
    else:
      I.unsupported('while_loop without static bound')
    I.scratch.setdefault('while_loops', []).append((I.loc(), len(conds)))
    r = states[-1]
    for c, st in reversed(list(zip(conds, states[:-1]))): r = join(I, c, r, st)
    return r

  def fori_loop(lo, hi, body, init):
    lo, hi = I.as_index(lo) if not isinstance(lo, int) else lo, hi
    if isinstance(hi, Arr):
      if hi.concrete() is None:
        iv = V.const_arr(lo)
        return while_loop(P(lambda s: J.arr_compare(I, 'Lt', s[0], hi)),
                          P(lambda s: (J.arr_binop(I, 'Add', s[0], 1), I.call(body, [s[0], s[1]]))), (iv, init))[1]
      hi = int(hi.concrete())
    s = init
    for i in range(lo, hi):
      new = sub(body, [V.const_arr(i, 'int32', True), s])
      carry_check(s, new, 'fori_loop')
      s = V.tree_map(lambda o, x: V.cast(V.as_arr(x), V.as_arr(o).dtype), s, new)
    return as_traced(s)

  def stack_out(ys):
    return V.tree_map(lambda *xs: Arr(np.stack([V.as_arr(x).a for x in xs]), V.as_arr(xs[0]).dtype, False, True), *ys)

  def scan(f, init, xs=None, length=None, reverse=False, unroll=1):
    leaves = V.tree_leaves(xs)
    n = V.as_arr(leaves[0]).shape[0] if leaves else I.as_index(length)
    ys, c = [None] * n, init
    for i in (reversed(range(n)) if reverse else range(n)):
      x = V.tree_map(lambda l: J.arr_getitem(I, V.as_arr(l), i), xs)
      r = sub(f, [c, x])
      r = I.iterate(r)
      if len(r) != 2: I.raise_(TypeError, 'scan body_fun output must be a pair')
      carry_check(c, r[0], 'scan')
      c, ys[i] = r
    return (as_traced(c), stack_out(ys) if n and V.tree_leaves(ys[0]) else (ys[0] if n else None))

  def lmap(f, xs):
    return scan(P(lambda c, x: (c, I.call(f, [x])), 'map_body'), (), xs)[1]

  def select(p, a, b):
    a, b = V.as_arr(a), V.as_arr(b)
    if a.shape != b.shape: I.raise_(TypeError, 'select cases must have the same shapes, got %s and %s' % (a.shape, b.shape))
    if a.dtype != b.dtype: I.raise_(TypeError, 'select cases must have the same dtypes, got %s and %s' % (a.dtype, b.dtype))
    p = V.as_arr(p)
    if p.shape not in ((), a.shape): I.raise_(TypeError, 'select `which` must be scalar or have the same shape as cases')
    return jt['where'].fn(p, a, b)

  def same(f):
    """lax binary ops need identical dtypes (weak scalars are promoted)."""
    def g(a, b):
      x, y = V.as_arr(a), V.as_arr(b)
      if x.dtype != y.dtype and not (x.weak or y.weak):
        I.raise_(TypeError, 'lax op requires arguments to have the same dtypes, got %s, %s' % (x.dtype, y.dtype))
      if x.shape != y.shape and x.shape != () and y.shape != ():
        I.raise_(TypeError, 'lax op got incompatible shapes %s %s' % (x.shape, y.shape))
      return f(x, y)
    return g
  names = dict(add='add', sub='subtract', mul='multiply', div='divide', max='maximum', min='minimum', pow='power',
               eq='equal', ne='not_equal', lt='less', le='less_equal', gt='greater', ge='greater_equal',
               rem='fmod', atan2='arctan2')
  for a, b in names.items(): t[a] = same(jt[b].fn)
  for n in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tanh', 'abs', 'sign', 'floor', 'ceil', 'square', 'log1p', 'expm1', 'reciprocal'):
    t[n] = jt[n].fn
  t['neg'] = jt['negative'].fn
  t['is_finite'] = jt['isfinite'].fn
  t['bitwise_not'] = jt['logical_not'].fn
  t['bitwise_and'], t['bitwise_or'] = jt['bitwise_and'].fn, jt['bitwise_or'].fn
  t['round'] = lambda x, *a: jt['round'].fn(x)

  def rsqrt(x):
    x = V.as_arr(x)
    if not V.is_float(x.dtype): I.raise_(TypeError, 'rsqrt does not accept dtype %s' % x.dtype)
    return Arr(V.vec(lambda q: T.div(T.ONE, T.unary('sqrt', q)), x), x.dtype, x.weak, traced_(I, x))
  t['rsqrt'] = rsqrt
  t['integer_pow'] = lambda x, y: J.arr_binop(I, 'Pow', V.as_arr(x), y)
  t['logistic'] = lambda x: Arr(V.vec(lambda q: T.unary('sigmoid', q), V.as_arr(x)), V.as_arr(x).dtype, False, True)
  t['erf'] = lambda x: Arr(V.vec(lambda q: T.unary('erf', q), V.as_arr(x)), V.as_arr(x).dtype, False, True)
  t['lgamma'] = lambda x: Arr(V.vec(lambda q: T.unary('lgamma', q), V.as_arr(x)), V.as_arr(x).dtype, False, True)
  t['clamp'] = lambda lo, x, hi: jt['minimum'].fn(jt['maximum'].fn(x, lo), hi)

  def stop_gradient(x):
    return V.tree_map(lambda l: Arr(V.vec(T.stopgrad, V.as_arr(l)), V.as_arr(l).dtype, V.as_arr(l).weak, traced_(I, l), None,
                                    isinstance(l, Arr) and l.np) if isinstance(l, (Arr, float)) else l, x)

  def convert_element_type(x, d):
    x = V.as_arr(x)
    d = V.dtype_name(d)
    r = V.cast(x, V.canon(d))
    return Arr(r.a, r.dtype, False, traced_(I, x))

  def full(shape, v, dtype=None): return jt['full'].fn(shape, v, dtype)

  def dynamic_slice(x, start, sizes):
    x = V.as_arr(x)
    st = [V.as_arr(s) for s in I.iterate(start)]
    if all(s.concrete() is not None for s in st):
      idx = tuple(slice(min(max(int(s.concrete()), 0), n - k), min(max(int(s.concrete()), 0), n - k) + k) for s, n, k in zip(st, x.shape, sizes))
      return J.arr_getitem(I, x, idx)
    I.unsupported('dynamic_slice')

  def dynamic_index_in_dim(x, i, axis=0, keepdims=True):
    x = V.as_arr(x)
    r = J.arr_getitem(I, x, (slice(None),) * (axis % x.ndim) + (i,))
    return jt['expand_dims'].fn(r, axis) if keepdims else r

  def select_n(which, *cases):
    w = V.as_arr(which)
    if len(cases) == 2 and w.dtype == 'bool': return select(w, cases[1], cases[0])
    if not V.is_int(w.dtype): I.unsupported('select_n')
    r = cases[-1]
    for i in range(len(cases) - 2, -1, -1): r = select(J.arr_compare(I, 'Eq', w, i), cases[i], r)
    return r

  def reduce_(x, init, f, dimensions):
    x = V.as_arr(x)
    dims = sorted(d % x.ndim for d in dimensions)
    m = np.moveaxis(x.a, dims, range(len(dims))).reshape((-1,) + tuple(n for i, n in enumerate(x.shape) if i not in dims))
    acc = jt['broadcast_to'].fn(V.cast(V.as_arr(init), x.dtype), m.shape[1:])
    for row in m: acc = I.call(f, [acc, Arr(np.asarray(row, dtype=object), x.dtype, False, True)])
    return acc

  def dot_general(a, b, dimension_numbers, precision=None, preferred_element_type=None):
    (ca, cb), (ba, bb) = dimension_numbers
    a, b = V.as_arr(a), V.as_arr(b)
    A, B, n = [None] * a.ndim, [None] * b.ndim, 0
    for i, j in list(zip(ba, bb)) + list(zip(ca, cb)):
      A[i] = B[j] = 'abcdefghijklmnop'[n]
      n += 1
    out = [A[i] for i in ba]
    for S in (A, B):
      for i, q in enumerate(S):
        if q is None:
          S[i] = 'abcdefghijklmnop'[n]
          out.append(S[i])
          n += 1
    return jt['einsum'].fn('%s,%s->%s' % (''.join(A), ''.join(B), ''.join(out)), a, b)

  def pad_(x, value, config):
    x = V.as_arr(x)
    for i, (lo, hi, inner) in enumerate(config):
      if lo < 0 or hi < 0 or inner: I.unsupported('lax.pad')
      pads = [jt['full'].fn(x.shape[:i] + (n,) + x.shape[i + 1:], value, x.dtype) for n in (lo, hi)]
      x = jt['concatenate'].fn([pads[0], x, pads[1]], i)
    return x

  def cum(name, x, axis, reverse):
    r = jt[name].fn(jt['flip'].fn(x, axis) if reverse else x, axis)
    return jt['flip'].fn(r, axis) if reverse else r

  def collective(name):
    def f(x, axis_name=None, **k):
      return V.tree_map(lambda l: Arr(V.vec(lambda q: T.app('coll:' + name, [q]), V.as_arr(l)), V.as_arr(l).dtype, False, True), x)
    return f
  t.update(cond=cond, switch=switch, while_loop=while_loop, fori_loop=fori_loop, scan=scan, map=lmap, select=select,
           stop_gradient=stop_gradient, convert_element_type=convert_element_type, full=full, full_like=jt['full_like'].fn,
           dynamic_slice=dynamic_slice, dynamic_index_in_dim=dynamic_index_in_dim,
           broadcast=lambda x, s: jt['broadcast_to'].fn(x, tuple(s) + V.as_arr(x).shape), reshape=jt['reshape'].fn,
           concatenate=lambda xs, dimension: jt['concatenate'].fn(xs, dimension), transpose=jt['transpose'].fn,
           expand_dims=lambda x, d: jt['expand_dims'].fn(x, tuple(d)), squeeze=lambda x, d: jt['squeeze'].fn(x, tuple(d)),
           broadcast_shapes=jt['broadcast_shapes'].fn, iota=lambda d, n: jt['arange'].fn(n, dtype=d),
           cumsum=lambda x, axis=0, reverse=False: cum('cumsum', x, axis, reverse), cumprod=lambda x, axis=0, reverse=False: cum('cumprod', x, axis, reverse),
           dot=jt['dot'].fn, index_in_dim=dynamic_index_in_dim, slice_in_dim=lambda x, a, b, stride=1, axis=0: J.arr_getitem(I, V.as_arr(x), (slice(None),) * axis + (slice(a, b, stride),)),
           broadcast_in_dim=lambda x, shape, dims: jt['broadcast_to'].fn(jt['reshape'].fn(x, tuple(V.as_arr(x).shape[list(dims).index(i)] if i in dims else 1 for i in range(len(shape)))), shape),
           reduce_precision=lambda x, *a, **k: x, psum=collective('psum'), pmean=collective('pmean'),
           zeros_like_array=jt['zeros_like'].fn,
           argmax=lambda x, axis, index_dtype='int32': V.cast(jt['argmax'].fn(x, axis), V.dtype_name(index_dtype)),
           argmin=lambda x, axis, index_dtype='int32': V.cast(jt['argmin'].fn(x, axis), V.dtype_name(index_dtype)),
           rev=lambda x, dimensions: jt['flip'].fn(x, tuple(dimensions)), sort=lambda x, dimension=-1, **k: jt['sort'].fn(x, dimension),
           batch_matmul=jt['matmul'].fn, cbrt=jt['cbrt'].fn, select_n=select_n, reduce=reduce_, dot_general=dot_general,
           split=lambda x, sizes, axis=0: jt['split'].fn(x, [sum(sizes[:i + 1]) for i in range(len(sizes) - 1)], axis),
           slice=lambda x, start, limit, strides=None: J.arr_getitem(I, V.as_arr(x), tuple(
               slice(a, b, c) for a, b, c in zip(start, limit, strides or (1,) * len(start)))),
           broadcasted_iota=lambda d, shape, dim: jt['broadcast_to'].fn(jt['reshape'].fn(
               jt['arange'].fn(shape[dim], dtype=d), tuple(n if i == dim else 1 for i, n in enumerate(shape))), tuple(shape)),
           collapse=lambda x, a, b=None: jt['reshape'].fn(x, V.as_arr(x).shape[:a] + (int(np.prod(V.as_arr(x).shape[a:b])),) + (V.as_arr(x).shape[b:] if b is not None else ())),
           pad=pad_)
  for a, b in dict(max='max', min='min', sum='sum', prod='prod').items(): t['reduce_' + a] = lambda x, axes, b=b: jt[b].fn(x, tuple(axes))
  t['reduce_and'], t['reduce_or'] = (lambda x, axes: jt['all'].fn(x, tuple(axes))), (lambda x, axes: jt['any'].fn(x, tuple(axes)))
  t = {k: v if isinstance(v, P) else IT.strict_keywords(I, P(v, 'lax.' + k)) if k not in ('cond', 'switch', 'psum', 'pmean') else P(v, 'lax.' + k) for k, v in t.items()}
  t['Precision'] = IT.Opaque('lax.Precision')
  return t


# ---------------------------------------------------------------------------
# random


def key_term(k):
  """Underlying key term of a key array."""
  a, b = V.as_arr(k).terms()
  if a.op == 'app' and a.val[0] == 'key0' and b.op == 'app' and b.val[0] == 'key1' and a.args[0] is b.args[0]:
    return a.args[0]
  return T.app('mkkey', [a, b])


def key_arr(t, traced=False):
  return Arr(V.oarr([T.app('key0', [t]), T.app('key1', [t])]), 'uint32', False, traced)


def check_key(I, k):
  if not isinstance(k, Arr): I.raise_(TypeError, 'unexpected PRNG key type %s' % J.tname(k))
  if k.shape != (2,): I.raise_(TypeError, 'JAX encountered invalid PRNG key data: expected shape (2,), got %s' % (k.shape,))


def random_fns(I):
  t = {}

  def PRNGKey(seed):
    s = V.as_arr(seed)
    return key_arr(T.app('rng:seed', [s.item()]), traced_(I, s))

  def use(key, what):
    check_key(I, key)
    k = key_term(key)
    I.scratch.setdefault('key_uses', []).append((k, what, I.loc()))
    return k

  def split(key, num=2):
    n = I.as_index(num) if not isinstance(num, (tuple, list)) else int(np.prod(num))
    k = use(key, 'split')
    rows = [key_arr(T.app('rng:split:%d:%d' % (n, i), [k])).a for i in range(n)]
    a = np.stack(rows) if rows else np.empty((0, 2), dtype=object)
    if isinstance(num, (tuple, list)): a = a.reshape(tuple(num) + (2,))
    return Arr(a, 'uint32', False, traced_(I, key))

  def fold_in(key, data):
    k = use(key, 'fold_in')
    return key_arr(T.app('rng:fold_in', [k, V.as_arr(data).item()]), True)

  def sampler(name, wrap, params, ptd=()):
    """params: names of distribution arguments after (key[, shape...])."""
    def f(key, *args, **kw):
      names = list(params)
      vals = dict(zip(names, args))
      for k2 in kw:
        if k2 not in names: I.unsupported('random.%s(%s=)' % (name, k2))
      vals.update(kw)
      shape = vals.get('shape', () if 'shape' in names else None)
      dist = [(n, V.as_arr(vals[n])) for n in names if n not in ('shape', 'dtype') and n in vals]
      if shape is None: shape = np.broadcast_shapes(*[d.shape for _, d in dist]) if dist else ()
      if isinstance(shape, (int, Arr)): shape = (I.as_index(shape),)
      shape = tuple(int(I.as_index(s)) for s in shape)
      dflt = 'float32' if name not in ('randint', 'categorical') else 'int32'
      if name in ('bernoulli',): dflt = 'bool'
      d = V.dtype_name(vals.get('dtype')) or dflt
      kt = use(key, '%s%s' % (name, shape))
      a = np.empty(shape, dtype=object)
      bc = [(n, np.broadcast_to(x.a, shape) if x.ndim <= len(shape) else None) for n, x in dist]
      for i, idx in enumerate(np.ndindex(*shape)):
        u = T.app('rng:%s:%s:%d' % (name, 'x'.join(map(str, shape)), i), [kt])
        a[idx] = wrap(u, {n: x[idx] for n, x in bc if x is not None})
      if shape == ():
        a[()] = wrap(T.app('rng:%s::0' % name, [kt]), {n: x[()] for n, x in bc if x is not None})
      return Arr(a, V.canon(d), False, True if traced_(I, key) else False)
    t[name] = P(f, 'random.' + name)

  raw = lambda u, p: u
  sig = lambda u: T.unary('sigmoid', u)
  sampler('normal', raw, ['shape', 'dtype'])
  sampler('uniform', lambda u, p: T.add(p.get('minval', T.ZERO), T.mul(sig(u), T.sub(p.get('maxval', T.ONE), p.get('minval', T.ZERO)))),
          ['shape', 'dtype', 'minval', 'maxval'])
  sampler('truncated_normal', lambda u, p: T.app('truncnorm', [u, p.get('lower', T.ZERO), p.get('upper', T.ZERO)]), ['lower', 'upper', 'shape', 'dtype'])
  sampler('bernoulli', lambda u, p: T.lt(sig(u), p.get('p', T.const(0.5))), ['p', 'shape'])
  sampler('rademacher', lambda u, p: T.ite(T.lt(T.ZERO, u), T.ONE, T.const(-1)), ['shape', 'dtype'])
  sampler('gumbel', raw, ['shape', 'dtype'])
  sampler('laplace', raw, ['shape', 'dtype'])
  sampler('exponential', lambda u, p: T.unary('exp', u), ['shape', 'dtype'])
  sampler('cauchy', raw, ['shape', 'dtype'])
  sampler('logistic', raw, ['shape', 'dtype'])
  sampler('maxwell', lambda u, p: T.unary('exp', u), ['shape', 'dtype'])
  sampler('weibull_min', lambda u, p: T.mul(p['scale'], T.power(T.neg(T.unary('log', T.sub(T.ONE, sig(u)))), T.div(T.ONE, p['concentration']))), ['scale', 'concentration', 'shape', 'dtype'])
  sampler('double_sided_maxwell', lambda u, p: T.add(T.mul(u, p['scale']), p['loc']), ['loc', 'scale', 'shape', 'dtype'])
  sampler('randint', lambda u, p: T.unary('floor', T.add(p['minval'], T.mul(sig(u), T.sub(p['maxval'], p['minval'])))), ['shape', 'minval', 'maxval', 'dtype'])
  sampler('t', lambda u, p: T.app('student', [u, p['df']]), ['df', 'shape', 'dtype'])
  sampler('gamma', lambda u, p: T.app('gamma', [u, p['a']]), ['a', 'shape', 'dtype'])
  sampler('beta', lambda u, p: T.app('beta', [u, p['a'], p['b']]), ['a', 'b', 'shape', 'dtype'])
  t['PRNGKey'] = P(PRNGKey)
  t['key'] = P(PRNGKey, 'key')
  t['split'] = P(split, 'random.split')
  t['fold_in'] = P(fold_in, 'random.fold_in')
  t['KeyArray'] = IT.Opaque('jax.random.KeyArray')
  return t


def nn_fns(I):
  jt = _tab(I, False)

  def el(op):
    def f(x):
      x = V.as_arr(x)
      d = x.dtype if V.is_float(x.dtype) else 'float32'
      return Arr(V.vec(lambda q: T.unary(op, q), V.cast(x, d)), d, x.weak, traced_(I, x))
    return f

  def log_softmax(x, axis=-1, **kw):
    x = V.as_arr(x)
    if not -x.ndim <= axis < x.ndim: I.raise_(ValueError, 'axis out of bounds')
    m = jt['max'].fn(x, axis, keepdims=True)
    m = Arr(V.vec(T.stopgrad, m), m.dtype, m.weak, m.traced)
    sh = J.arr_binop(I, 'Sub', x, m)
    s = jt['log'].fn(jt['sum'].fn(jt['exp'].fn(sh), axis, keepdims=True))
    return J.arr_binop(I, 'Sub', sh, s)

  def softmax(x, axis=-1, **kw):
    x = V.as_arr(x)
    m = jt['max'].fn(x, axis, keepdims=True)
    m = Arr(V.vec(T.stopgrad, m), m.dtype, m.weak, m.traced)
    e = jt['exp'].fn(J.arr_binop(I, 'Sub', x, m))
    return J.arr_binop(I, 'Div', e, jt['sum'].fn(e, axis, keepdims=True))

  def logsumexp(a, axis=None, b=None, keepdims=False, **kw):
    x = V.as_arr(a)
    m = jt['max'].fn(x, axis, keepdims=True)
    m = Arr(V.vec(lambda q: T.stopgrad(T.ite(T.isfinite(q), q, T.ZERO)), m), m.dtype, m.weak, m.traced)
    e = jt['exp'].fn(J.arr_binop(I, 'Sub', x, m))
    if b is not None: e = J.arr_binop(I, 'Mult', e, V.as_arr(b))
    s = jt['log'].fn(jt['sum'].fn(e, axis, keepdims=True))
    r = J.arr_binop(I, 'Add', s, m)
    return r if keepdims else (jt['squeeze'].fn(r, axis) if axis is not None else jt['reshape'].fn(r, ()))

  def one_hot(x, n, dtype=None, axis=-1):
    x = V.as_arr(x)
    n = I.as_index(n)
    st = np.stack([V.vec(lambda q, i=i: T.b2n(T.eq(q, T.const(i))), x) for i in range(n)], axis)
    return Arr(st, V.canon(V.dtype_name(dtype) or 'float32'), False, traced_(I, x))

  def softplus(x): return jt['logaddexp'].fn(x, 0.0)

  def relu(x): return jt['maximum'].fn(x, 0)
  t = dict(sigmoid=el('sigmoid'), log_sigmoid=el('logsigmoid'), log_softmax=log_softmax, softmax=softmax,
           logsumexp=logsumexp, one_hot=one_hot, softplus=softplus, relu=relu, tanh=jt['tanh'].fn)
  return {k: IT.strict_keywords(I, P(v, 'nn.' + k)) for k, v in t.items()}


def norm_stats(I):
  jt = _tab(I, False)

  def logpdf(x, loc=0, scale=1):
    x, loc, scale = V.as_arr(x), V.as_arr(loc), V.as_arr(scale)
    B = functools.partial(J.arr_binop, I)
    sq = B('Pow', scale, 2)
    ln = jt['log'].fn(B('Mult', sq, 2 * math.pi))
    q = B('Div', B('Pow', B('Sub', x, loc), 2), sq)
    return B('Div', J.arr_unop(I, 'USub', B('Add', ln, q)), 2.0)

  def pdf(x, loc=0, scale=1): return jt['exp'].fn(logpdf(x, loc, scale))
  return {'logpdf': P(logpdf), 'pdf': P(pdf)}


def flatten_util_fns(I):
  def ravel_pytree(tree):
    leaves, td = V.tree_flatten(tree)
    ls = [V.as_arr(l) for l in leaves]
    d, _ = V.promote(*[(l.dtype, l.weak) for l in ls]) if ls else ('float32', False)
    flat = Arr(V.oarr([x for l in ls for x in V.cast(l, d).terms()]), d, False, traced_(I, *ls))

    one = all(l.dtype == d for l in ls)

    def unravel(v):
      v = V.as_arr(v)
      if v.shape != (sum(l.size for l in ls),): I.raise_(ValueError, 'unravel function given array of shape %s' % (v.shape,))
      if ls and not one and v.dtype != d: I.raise_(TypeError, 'unravel function given array of dtype %s, but expected dtype %s' % (v.dtype, d))
      out, k = [], 0
      for l in ls:
        a = v.a[k:k + l.size].reshape(l.shape) if l.shape else V.oarr(v.a[k])
        out.append(V.cast(Arr(a, v.dtype, False, v.traced), v.dtype if one else l.dtype))
        k += l.size
      return V.tree_unflatten(td, out)
    return flat, P(unravel)
  return {'ravel_pytree': P(ravel_pytree)}


def dtypes_fns(I):
  jt = _tab(I, False)

  def scalar_type_of(x):
    a = V.as_arr(x)
    return bool if a.dtype == 'bool' else float if V.is_float(a.dtype) else complex if V.is_complex(a.dtype) else int
  return {'canonicalize_dtype': P(lambda d, **k: V.DType(V.canon(V.dtype_name(d))), 'canonicalize_dtype'),
          'scalar_type_of': P(scalar_type_of), 'result_type': jt['result_type'], 'issubdtype': jt['issubdtype'],
          'bfloat16': V.DType('bfloat16'), 'float0': IT.Opaque('float0'), 'promote_types': jt['promote_types'],
          'dtype': P(lambda x, **k: V.DType(V.as_arr(x).dtype), 'dtypes.dtype')}


# ---------------------------------------------------------------------------
# python modules


def math_fns(I):
  def un(name, op):
    def f(x):
      if isinstance(x, Arr):
        if x.traced and not x.py: I.event('concretise', 'math.%s of an array value' % name)
        t = T.unary(op, x.item())
        k = 'int' if name in ('floor', 'ceil', 'trunc') else 'float'
        if t.op == 'c': return (int if k == 'int' else float)(t.val)
        return Arr(t, J._pyfloat_dtype(k), True, x.traced and not x.py, k)
      try:
        return getattr(math, name)(x)
      except (ValueError, OverflowError, TypeError) as e:
        I.raise_(type(e), *e.args)
    return P(f, 'math.' + name)
  t = {n: un(n, o) for n, o in dict(sqrt='sqrt', exp='exp', cos='cos', sin='sin', tanh='tanh', floor='floor', ceil='ceil',
                                    fabs='abs', log1p='log1p', expm1='expm1', trunc='trunc', tan='tan', atan='arctan').items()}

  def log(x, base=None):
    if isinstance(x, Arr):
      if x.traced and not x.py: I.event('concretise', 'math.log of an array value')
      r = Arr(T.unary('log', x.item()), J._pyfloat_dtype('float'), True, False, 'float')
      return r if base is None else I.binop('Div', r, math.log(base))
    try:
      return math.log(x) if base is None else math.log(x, base)
    except ValueError as e:
      I.raise_(ValueError, *e.args)
  t['log'] = P(log)
  t['log2'] = P(lambda x: math.log2(x) if not isinstance(x, Arr) else I.binop('Div', log(x), math.log(2)), 'log2')
  t['log10'] = P(lambda x: math.log10(x) if not isinstance(x, Arr) else I.binop('Div', log(x), math.log(10)), 'log10')
  t['pow'] = P(lambda a, b: I.binop('Pow', a, b), 'pow')

  def host(name, f, op):
    def g(x):
      if isinstance(x, Arr):
        if x.traced and not x.py: I.event('concretise', 'math.%s of an array value' % name)
        r = op(x.item())
        return bool(r.val) if r.op == 'c' else Arr(r, 'bool', False, False, 'bool')
      return f(x)
    return P(g, 'math.' + name)
  t['isnan'] = host('isnan', math.isnan, T.isnan)
  t['isinf'] = host('isinf', math.isinf, T.isinf)
  t['isfinite'] = host('isfinite', math.isfinite, T.isfinite)

  def prod(it, start=1):
    acc = start
    for x in I.iterate(it): acc = I.binop('Mult', acc, x)
    return acc
  t['prod'] = P(prod)
  t['fsum'] = P(lambda it: functools.reduce(lambda a, b: I.binop('Add', a, b), I.iterate(it), 0.0), 'fsum')
  t['gcd'], t['comb'], t['factorial'] = P(math.gcd, 'gcd'), P(math.comb, 'comb'), P(math.factorial, 'factorial')
  t['hypot'] = P(lambda a, b: math.hypot(a, b), 'hypot')
  t['copysign'] = P(lambda a, b: math.copysign(a, b), 'copysign')
  t['isclose'] = P(lambda a, b, **k: math.isclose(a, b, **k), 'isclose')
  t.update(pi=math.pi, e=math.e, inf=math.inf, nan=math.nan, tau=math.tau)
  return t


class SigParam(IT.HostObj):
  def __init__(self, name, kind, default, annotation):
    self.name, self.kind, self.default, self.annotation = name, kind, default, annotation


EMPTY = IT.Opaque('inspect._empty')
PK = {k: IT.Opaque('inspect.' + k) for k in ('POSITIONAL_ONLY', 'POSITIONAL_OR_KEYWORD', 'VAR_POSITIONAL', 'KEYWORD_ONLY', 'VAR_KEYWORD')}
for _k, _v in PK.items(): setattr(SigParam, _k, _v)
SigParam.empty = EMPTY


class BoundArgs(IT.HostObj):
  def __init__(self, I, sig, args):
    self._I, self._sig, self.arguments = I, sig, args

  def apply_defaults(self):
    new = V.OrderedD()
    for n, p in self._sig.parameters.items():
      if n in self.arguments: new[n] = self.arguments[n]
      elif p.default is not EMPTY: new[n] = p.default
      elif p.kind is PK['VAR_POSITIONAL']: new[n] = ()
      elif p.kind is PK['VAR_KEYWORD']: new[n] = {}
    self.arguments = new

  @property
  def args(self):
    out = []
    for n, p in self._sig.parameters.items():
      if n not in self.arguments or p.kind in (PK['KEYWORD_ONLY'], PK['VAR_KEYWORD']): break
      if p.kind is PK['VAR_POSITIONAL']: out.extend(self.arguments[n])
      else: out.append(self.arguments[n])
    return tuple(out)

  @property
  def kwargs(self):
    out, started = {}, False
    for n, p in self._sig.parameters.items():
      if not started:
        if p.kind in (PK['KEYWORD_ONLY'], PK['VAR_KEYWORD']) or n not in self.arguments: started = True
      if not started or n not in self.arguments: continue
      if p.kind is PK['VAR_KEYWORD']: out.update(self.arguments[n])
      elif p.kind is not PK['VAR_POSITIONAL']: out[n] = self.arguments[n]
    return out


class SignatureV(IT.HostObj):
  def __init__(self, I, params):
    self._I, self.parameters = I, params
    self.empty = EMPTY
    self.return_annotation = EMPTY

  def bind(self, *args, **kw): return self._bind(args, kw, False)
  def bind_partial(self, *args, **kw): return self._bind(args, kw, True)

  def _bind(self, args, kw, partial):
    I = self._I
    out = V.OrderedD()
    args = list(args)
    kw = dict(kw)
    vals = {}
    for n, p in self.parameters.items():
      if p.kind is PK['VAR_POSITIONAL']:
        if args: vals[n] = tuple(args)
        args = []
      elif p.kind is PK['VAR_KEYWORD']: pass
      elif args and p.kind is not PK['KEYWORD_ONLY']:
        if n in kw: I.raise_(TypeError, 'multiple values for argument %r' % n)
        vals[n] = args.pop(0)
      elif n in kw and p.kind is not PK['POSITIONAL_ONLY']: vals[n] = kw.pop(n)
      elif p.default is EMPTY and not partial: I.raise_(TypeError, 'missing a required argument: %r' % n)
    vk = [n for n, p in self.parameters.items() if p.kind is PK['VAR_KEYWORD']]
    if kw and vk: vals[vk[0]] = kw
    elif kw: I.raise_(TypeError, 'got an unexpected keyword argument %r' % next(iter(kw)))
    if args: I.raise_(TypeError, 'too many positional arguments')
    for n in self.parameters:
      if n in vals: out[n] = vals[n]
    return BoundArgs(I, self, out)


def signature(I, f):
  ps = V.OrderedD()
  skip = 0
  if isinstance(f, IT.Closure) and '__wrapped__' in f.attrs: return signature(I, f.attrs['__wrapped__'])
  if isinstance(f, IT.Prim) and '__wrapped__' in f.attrs: return signature(I, f.attrs['__wrapped__'])
  if isinstance(f, IT.BoundMethod): f, skip = f.func, 1
  if isinstance(f, IT.PartialV):
    s = signature(I, f.func)
    names = list(s.parameters)
    for n in names[:len(f.args)]: s.parameters.pop(n)
    for k, v in f.kwargs.items():
      if k in s.parameters:
        q = s.parameters[k]
        s.parameters[k] = SigParam(k, PK['KEYWORD_ONLY'], v, q.annotation)
    return s
  if isinstance(f, IT.AClass):
    m = f.lookup('__init__')
    if isinstance(m, IT.Closure): f, skip = m, 1
  if isinstance(f, IT.Obj):
    m = f.cls.lookup('__call__')
    if isinstance(m, IT.Closure): f, skip = m, 1
  if not isinstance(f, IT.Closure): I.unsupported('signature of %r' % (f,))
  a = f.node.args
  pos = a.posonlyargs + a.args
  nd = len(f.defaults)

  def ann(p):
    if p.annotation is None: return EMPTY
    try:
      return I.eval(p.annotation, f.scope)
    except (V.Unsupported, AbsRaise):
      return IT.Opaque('annotation')
  for i, p in enumerate(pos):
    if i < skip: continue
    j = i - (len(pos) - nd)
    ps[p.arg] = SigParam(p.arg, PK['POSITIONAL_ONLY'] if p in a.posonlyargs else PK['POSITIONAL_OR_KEYWORD'],
                         f.defaults[j] if j >= 0 else EMPTY, ann(p))
  if a.vararg: ps[a.vararg.arg] = SigParam(a.vararg.arg, PK['VAR_POSITIONAL'], EMPTY, ann(a.vararg))
  for p in a.kwonlyargs:
    ps[p.arg] = SigParam(p.arg, PK['KEYWORD_ONLY'], f.kwdefaults.get(p.arg, EMPTY), ann(p))
  if a.kwarg: ps[a.kwarg.arg] = SigParam(a.kwarg.arg, PK['VAR_KEYWORD'], EMPTY, ann(a.kwarg))
  return SignatureV(I, ps)


def inspect_fns(I):
  t = {'signature': P(lambda f, **k: signature(I, f), 'signature'), '_empty': EMPTY,
       'ismodule': P(lambda x: isinstance(x, (IT.Module, IT.ModModel)), 'ismodule'),
       'isfunction': P(lambda x: isinstance(x, IT.Closure), 'isfunction'),
       'isclass': P(lambda x: isinstance(x, (IT.AClass, type)), 'isclass'),
       'ismethod': P(lambda x: isinstance(x, IT.BoundMethod), 'ismethod'),
       'Signature': IT.Opaque('inspect.Signature', {'empty': EMPTY}),
       'Parameter': IT.Opaque('inspect.Parameter', dict(PK, empty=EMPTY)), 'BoundArguments': IT.Opaque('inspect.BoundArguments')}
  return t


def functools_fns(I):
  def wraps(f, *a, **k):
    def deco(g):
      if isinstance(g, IT.Closure):
        g.attrs['__wrapped__'] = f
        for n in ('__name__', '__qualname__', '__doc__', '__module__'):
          try:
            g.attrs[n] = I.getattr(f, n)
          except (AbsRaise, V.Unsupported):
            pass
      elif isinstance(g, IT.Prim):
        g.attrs['__wrapped__'] = f
      return g
    return P(deco, 'wraps')

  def reduce(f, it, *init):
    xs = I.iterate(it)
    if init: acc = init[0]
    elif xs: acc, xs = xs[0], xs[1:]
    else: I.raise_(TypeError, 'reduce() of empty iterable with no initial value')
    for x in xs: acc = I.call(f, [acc, x])
    return acc

  def cache(f=None, maxsize=None, **k):
    if f is None or isinstance(f, int): return P(lambda g: g, 'lru_cache')
    return f
  return {'partial': P(lambda f, *a, **k: IT.PartialV(f, a, k), 'partial'), 'reduce': P(reduce), 'wraps': P(wraps),
          'lru_cache': P(cache, 'lru_cache'), 'cache': P(lambda f: f, 'cache'),
          'update_wrapper': P(lambda w, f, *a: w, 'update_wrapper'),
          'cmp_to_key': IT.Opaque('cmp_to_key'), 'cached_property': property,
          'partialmethod': IT.Opaque('partialmethod')}


def operator_fns(I):
  t = {}
  for n, o in dict(add='Add', sub='Sub', mul='Mult', truediv='Div', floordiv='FloorDiv', mod='Mod', pow='Pow', matmul='MatMult').items():
    t[n] = P(lambda a, b, o=o: I.binop(o, a, b), 'operator.' + n)
  for n, o in dict(lt='Lt', le='LtE', gt='Gt', ge='GtE', eq='Eq', ne='NotEq').items():
    t[n] = P(lambda a, b, o=o: I.compare(o, a, b), 'operator.' + n)
  t['neg'] = P(lambda a: I.unop('USub', a), 'neg')
  t['and_'] = P(lambda a, b: I.binop('BitAnd', a, b), 'and_')
  t['or_'] = P(lambda a, b: I.binop('BitOr', a, b), 'or_')

  def itemgetter(*ks):
    return P(lambda x: I.getitem(x, ks[0]) if len(ks) == 1 else tuple(I.getitem(x, k) for k in ks), 'itemgetter')

  def attrgetter(*ks):
    def get(x, k):
      for part in k.split('.'): x = I.getattr(x, part)
      return x
    return P(lambda x: get(x, ks[0]) if len(ks) == 1 else tuple(get(x, k) for k in ks), 'attrgetter')
  t['itemgetter'], t['attrgetter'] = P(itemgetter), P(attrgetter)

  def truthy(neg):
    def f(a):
      c = I.truth(a)
      if isinstance(c, bool): return c != neg
      return Arr(T.lnot(c) if neg else c, 'bool', False, False, 'bool')
    return f
  t['not_'] = P(truthy(True), 'not_')
  t['pos'] = P(lambda a: I.unop('UAdd', a), 'pos')
  if I.builtins is None: I.builtins = J.make_builtins(I)
  t['abs'] = I.builtins['abs']
  t['invert'] = t['inv'] = P(lambda a: I.unop('Invert', a), 'invert')
  t['is_not'] = P(lambda a, b: I.compare('IsNot', a, b), 'is_not')
  t['contains'] = P(lambda a, b: I.compare('In', b, a), 'contains')
  t['concat'] = P(lambda a, b: I.binop('Add', a, b), 'concat')
  t['iadd'] = P(lambda a, b: I.binop('Add', a, b), 'iadd')
  t['imul'] = P(lambda a, b: I.binop('Mult', a, b), 'imul')
  t['xor'] = P(lambda a, b: I.binop('BitXor', a, b), 'xor')
  t['index'] = P(lambda a: I.as_index(a), 'index')
  t['truth'] = P(truthy(False), 'truth')
  t['is_'] = P(lambda a, b: I.compare('Is', a, b), 'is_')
  t['getitem'] = P(lambda a, b: I.getitem(a, b), 'getitem')
  t['methodcaller'] = P(lambda n, *a, **k: P(lambda x: I.call(I.getattr(x, n), list(a), k), n), 'methodcaller')
  return t


def itertools_fns(I):
  def wrap(f): return lambda *a, **k: IT.GenV(f(*[I.iterate(x) if not isinstance(x, int) else x for x in a], **k))

  def sure(c):
    c = I.truth(c)
    if not isinstance(c, bool): I.unsupported('itertools selection by an unknown value')
    return c

  def accumulate(it, func=None, initial=None):
    out, acc = IT.GenV(), initial
    xs = I.iterate(it)
    if initial is not None: out.append(acc)
    for i, x in enumerate(xs):
      acc = x if (i == 0 and initial is None) else (I.binop('Add', acc, x) if func is None else I.call(func, [acc, x]))
      out.append(acc)
    return out
  t = dict(chain=wrap(itertools.chain), product=wrap(itertools.product), zip_longest=wrap(itertools.zip_longest),
           combinations=wrap(itertools.combinations), permutations=wrap(itertools.permutations),
           pairwise=wrap(itertools.pairwise), accumulate=accumulate,
           islice=lambda it, *a: IT.GenV(itertools.islice(I.iterate(it), *a)),
           repeat=lambda x, n=None: IT.GenV([x] * n) if n is not None else I.unsupported('infinite repeat'),
           combinations_with_replacement=wrap(itertools.combinations_with_replacement),
           tee=lambda it, n=2: tuple(IT.GenV(x) for x in [list(I.iterate(it))] * n),
           compress=lambda it, sel: IT.GenV([x for x, c in zip(I.iterate(it), I.iterate(sel)) if sure(c)]),
           filterfalse=lambda f, it: IT.GenV([x for x in I.iterate(it) if not sure(x if f is None else I.call(f, [x]))]),
           takewhile=lambda f, it: IT.GenV(list(itertools.takewhile(lambda x: sure(I.call(f, [x])), I.iterate(it)))),
           dropwhile=lambda f, it: IT.GenV(list(itertools.dropwhile(lambda x: sure(I.call(f, [x])), I.iterate(it)))),
           starmap=lambda f, it: IT.GenV([I.call(f, I.iterate(a)) for a in I.iterate(it)]))
  t = {k: P(v, 'itertools.' + k) for k, v in t.items()}
  t['chain'].attrs['from_iterable'] = P(lambda it: IT.GenV([y for x in I.iterate(it) for y in I.iterate(x)]), 'from_iterable')

  def count(*a): I.unsupported('itertools.count')
  t['count'] = P(count)
  return t


def collections_fns(I):
  def namedtuple(name, fields, defaults=(), **k):
    fs = fields.replace(',', ' ').split() if isinstance(fields, str) else I.iterate(fields)
    d = list(defaults or ())
    return IT.AClass(name, [], {}, None, list(fs), dict(zip(fs[len(fs) - len(d):], d)))

  def deque(it=(), maxlen=None): return list(I.iterate(it))
  return {'namedtuple': P(namedtuple), 'OrderedDict': V.OrderedD, 'defaultdict': V.DefaultD, 'deque': P(deque),
          'Counter': IT.Opaque('collections.Counter'), 'abc': IT.ModModel('collections.abc', {}),
          'ChainMap': IT.Opaque('ChainMap')}


def typing_fns(I):
  return {'NamedTuple': IT.NAMEDTUPLE, 'TYPE_CHECKING': False, 'cast': P(lambda t, x: x, 'cast'),
          'TypeVar': P(lambda *a, **k: IT.Opaque('typing.T'), 'TypeVar'), 'Generic': IT.Opaque('typing.Generic'),
          'overload': P(lambda f: f, 'overload'), 'NewType': P(lambda n, t: t, 'NewType'),
          'Protocol': IT.Opaque('typing.Protocol'), 'runtime_checkable': P(lambda c: c, 'runtime_checkable'),
          'get_type_hints': P(lambda *a, **k: {}, 'get_type_hints'), 'final': P(lambda f: f, 'final'),
          'no_type_check': P(lambda f: f, 'no_type_check')}


def dataclasses_fns(I):
  def mk(cls, frozen=False):
    fields = []
    for c in reversed(cls.mro()):
      if isinstance(c, IT.AClass):
        for n in getattr(c, 'ann', {}) or {}:
          if n not in fields: fields.append(n)
    cls.dataclass_fields = fields
    cls.frozen = frozen
    return cls

  def dataclass(cls=None, **k):
    if cls is None: return P(lambda c: mk(c, k.get('frozen', False)), 'dataclass')
    return mk(cls)

  def replace(o, **kw):
    if isinstance(o, ANT): return I.call(I.getattr(o, '_replace'), [], kw)
    n = IT.Obj(o.cls)
    n.attrs.update(o.attrs)
    n.attrs.update(kw)
    return n
  return {'dataclass': P(dataclass), 'replace': P(replace),
          'field': P(lambda default=None, default_factory=None, **k: IT.FieldV(default, default_factory), 'field'),
          'asdict': P(lambda o: dict(o.attrs), 'asdict'), 'fields': IT.Opaque('dataclasses.fields')}


def chex_fns(I):
  def fail(msg): I.raise_(AssertionError, msg)

  def assert_type(inputs, expected):
    xs = inputs if isinstance(inputs, (list, tuple)) else [inputs]
    es = expected if isinstance(expected, (list, tuple)) else [expected] * len(xs)
    if len(xs) != len(es): fail('assert_type length')
    for x, e in zip(xs, es):
      d = V.as_arr(x).dtype
      n = V.dtype_name(e)
      ok = V.is_float(d) if V.is_float(n) else (V.is_int(d) if V.is_int(n) else d == 'bool')
      if not ok: fail('Error in type compatibility check: input has type %s but expected %s' % (d, n))

  def arrs(inputs): return [V.as_arr(x) for x in (inputs if isinstance(inputs, (list, tuple)) else [inputs])]

  def assert_rank(inputs, ranks):
    xs = arrs(inputs)
    rs = ranks if isinstance(ranks, (list, tuple)) else [ranks] * len(xs)
    for x, r in zip(xs, rs):
      r = r if isinstance(r, (set, tuple, list)) else {r}
      if x.ndim not in r: fail('Error in rank compatibility check: rank %d, expected %s' % (x.ndim, r))

  def shp_match(s, e):
    if Ellipsis in e:
      i = e.index(Ellipsis)
      return len(s) >= len(e) - 1 and shp_match(s[:i], e[:i]) and shp_match(s[len(s) - (len(e) - i - 1):], e[i + 1:])
    return len(s) == len(e) and all(b is None or (b == a if not isinstance(b, (set,)) else a in b) for a, b in zip(s, e))

  def assert_shape(inputs, shapes):
    xs = arrs(inputs)
    many = isinstance(shapes, list) or (isinstance(shapes, tuple) and shapes and isinstance(shapes[0], (tuple, list)))
    es = list(shapes) if many else [shapes] * len(xs)
    for x, e in zip(xs, es):
      if not shp_match(tuple(x.shape), tuple(e)): fail('Error in shape compatibility check: %s vs %s' % (x.shape, e))

  def assert_equal_shape(xs, **k):
    xs = [V.as_arr(x) for x in I.iterate(xs)]
    if any(x.shape != xs[0].shape for x in xs): fail('Arrays have different shapes: %s' % [x.shape for x in xs])

  def assert_is_broadcastable(a, b):
    a, b = tuple(a), tuple(b)
    try:
      ok = np.broadcast_shapes(a, b) == b
    except ValueError:
      ok = False
    if not ok: fail('Shape %s is not broadcastable to %s' % (a, b))

  def assert_tree_struct(*ts, **k):
    ts = list(ts[0]) if len(ts) == 1 and isinstance(ts[0], (list, tuple)) else ts
    d = [V.tree_structure(t) for t in ts]
    if any(x != d[0] for x in d): fail('tree structures differ')

  def assert_tree_shapes(*ts, **k):
    assert_tree_struct(*ts)
    ts = list(ts[0]) if len(ts) == 1 and isinstance(ts[0], (list, tuple)) else ts
    for ls in zip(*[V.tree_leaves(t) for t in ts]):
      if any(V.as_arr(l).shape != V.as_arr(ls[0]).shape for l in ls): fail('tree shapes differ')

  def conc(name):
    def f(*a, **k):
      if any(isinstance(l, Arr) and l.traced for l in V.tree_leaves(list(a))): I.event('concretise', 'chex.%s on array values' % name)
    return f

  def assert_scalar(x):
    if not isinstance(x, (int, float, Arr)) or (isinstance(x, Arr) and not x.py): fail('not a scalar')

  def assert_equal(a, b):
    c = I.truth(I.compare('Eq', a, b))
    if c is False: fail('not equal')

  def assert_axis_dimension(x, axis, expected, **k):
    if V.as_arr(x).shape[axis] != expected: fail('axis dimension')

  def assert_scalar_positive(x):
    c = I.truth(I.compare('Gt', x, 0))
    if c is False: fail('not positive')

  dc = dataclasses_fns(I)

  def dataclass(cls=None, **k):
    def go(c):
      c = I.call(dc['dataclass'], [c])
      c.pytree = list(c.dataclass_fields)
      return c
    return go(cls) if cls is not None else P(go, 'dataclass')
  t = dict(assert_type=assert_type, assert_rank=assert_rank, assert_shape=assert_shape, assert_equal_shape=assert_equal_shape,
           assert_is_broadcastable=assert_is_broadcastable, assert_tree_all_equal_structs=assert_tree_struct,
           assert_trees_all_equal_structs=assert_tree_struct, assert_tree_all_equal_shapes=assert_tree_shapes,
           assert_trees_all_equal_shapes=assert_tree_shapes, assert_tree_all_finite=conc('assert_tree_all_finite'),
           assert_trees_all_close=conc('assert_trees_all_close'), assert_tree_all_close=conc('assert_tree_all_close'),
           assert_scalar=assert_scalar, assert_equal=assert_equal, assert_axis_dimension=assert_axis_dimension,
           assert_scalar_positive=assert_scalar_positive, dataclass=dataclass,
           assert_equal_rank=lambda xs: None, assert_scalar_non_negative=lambda x: None, assert_max_traces=lambda *a, **k: P(lambda f: f))
  return {k: P(v, 'chex.' + k) for k, v in t.items()}


def effect_fns(I, mod, names, unsup=True):
  def mk(n):
    def f(*a, **k):
      I.event('effect', '%s.%s is not a function of the arguments' % (mod, n))
      return Arr(T.var('effect:%s.%s@%s' % (mod, n, I.loc()), 'real'), 'float64', False, False, None, True) if not a else _shaped(a, k)
    def _shaped(a, k):
      size = k.get('size')
      if size is None and n in ('rand', 'randn'): size = a
      elif size is None and len(a) >= 3: size = a[2]
      if size is None: size = ()
      size = (size,) if isinstance(size, int) else tuple(I.iterate(size))
      return V.sym('effect:%s.%s@%s' % (mod, n, I.loc()), size, 'real', 'float64', traced=False).with_(np_=True)
    return P(f, '%s.%s' % (mod, n))
  return {n: mk(n) for n in names}


class RandomState(IT.HostObj):
  """A host RNG seeded by a constant: deterministic symbols."""

  def __init__(self, I, seed): self._I, self._seed, self._n = I, seed, 0

  def _draw(self, name, size, dom):
    size = () if size is None else ((size,) if isinstance(size, int) else tuple(self._I.iterate(size)))
    self._n += 1
    tag = 'hostrng:%s:%s:%d' % (self._seed, name, self._n)
    return V.sym(tag, size, dom, 'float64', traced=False).with_(np_=True)

  def uniform(self, low=0.0, high=1.0, size=None):
    return self._draw('uniform(%s,%s)' % (low, high), size, ('range', low, high))

  def normal(self, loc=0.0, scale=1.0, size=None): return self._draw('normal', size, 'real')
  def standard_normal(self, size=None): return self._draw('normal', size, 'real')
  def randn(self, *size): return self._draw('normal', size, 'real')
  def rand(self, *size): return self._draw('uniform', size, ('range', 0.0, 1.0))
  def random(self, size=None): return self._draw('uniform', size, ('range', 0.0, 1.0))
  random_sample = random


def numpy_mod(I):
  t = dict(_tab(I, True))
  rnd = effect_fns(I, 'numpy.random', ('uniform', 'normal', 'randn', 'rand', 'random', 'standard_normal', 'randint', 'choice', 'permutation', 'shuffle', 'random_sample'))

  def seed(*a): I.event('effect', 'numpy.random.seed changes global state')
  rnd['seed'] = P(seed)

  def RS(seed=None):
    if seed is None: I.event('effect', 'unseeded numpy RandomState')
    if isinstance(seed, Arr): seed = I.as_index(seed)
    return RandomState(I, seed)
  rnd['RandomState'] = P(RS, 'RandomState')
  rnd['default_rng'] = P(RS, 'default_rng')
  t['random'] = IT.ModModel('numpy.random', rnd)
  I.modules.setdefault('numpy.random', t['random'])
  t['errstate'] = P(lambda **k: IT.Opaque('ctx:errstate'), 'errstate')
  return t


def time_fns(I): return effect_fns(I, 'time', ('time', 'perf_counter', 'monotonic', 'time_ns', 'process_time', 'sleep'))
def pyrandom_fns(I): return effect_fns(I, 'random', ('random', 'uniform', 'gauss', 'randint', 'choice', 'normalvariate', 'getrandbits'))


def logging_fns(I):
  t = {n: P(lambda *a, **k: None, 'logging.' + n) for n in ('info', 'warning', 'error', 'debug', 'log', 'warn', 'log_first_n', 'vlog', 'exception', 'fatal')}
  t['getLogger'] = P(lambda *a: IT.ModModel('logger', t), 'getLogger')
  return t


def copy_fns(I):
  def deep(x, *a):
    if isinstance(x, (list, dict, tuple)): return V.tree_map(lambda l: l, x) if not isinstance(x, ANT) else x
    return x

  def shallow(x):
    if isinstance(x, IT.Obj):
      o = IT.Obj(x.cls)
      o.attrs.update(x.attrs)
      return o
    return type(x)(x) if isinstance(x, (list, dict, set)) else x
  return {'copy': P(shallow, 'copy'), 'deepcopy': P(deep, 'deepcopy')}


def enum_fns(I):
  return {'Enum': IT.AClass('Enum', [], {}), 'IntEnum': IT.AClass('IntEnum', [], {}), 'auto': P(lambda: 0, 'auto')}


BUILDERS = {
    'jax': jax_fns, 'jax.numpy': lambda I: _tab(I, False), 'jax.numpy.linalg': lambda I: _tab(I, False)['linalg'].table,
    'jax.lax': lax_fns, 'jax.random': random_fns, 'jax.nn': nn_fns, 'jax.tree_util': tree_fns,
    'jax.flatten_util': flatten_util_fns, 'jax.dtypes': dtypes_fns,
    'jax.scipy': lambda I: {}, 'jax.scipy.stats': lambda I: {}, 'jax.scipy.stats.norm': norm_stats,
    'jax.scipy.special': lambda I: {k: v for k, v in dict(
        logsumexp=nn_fns(I)['logsumexp'], expit=nn_fns(I)['sigmoid'],
        erf=P(lambda x: Arr(V.vec(lambda q: T.unary('erf', q), V.as_arr(x)), V.as_arr(x).dtype, False, True), 'erf')).items()},
    'jax.core': lambda I: {'Tracer': TRACER}, 'jax.debug': lambda I: {'print': P(lambda *a, **k: None, 'debug.print')},
    'jax.errors': lambda I: {}, 'jax.config': lambda I: {},
    'numpy': numpy_mod, 'numpy.linalg': lambda I: _tab(I, True)['linalg'].table,
    'math': math_fns, 'inspect': inspect_fns, 'functools': functools_fns, 'operator': operator_fns,
    'itertools': itertools_fns, 'collections': collections_fns, 'collections.abc': lambda I: {},
    'typing': typing_fns, 'typing_extensions': typing_fns, 'dataclasses': dataclasses_fns, 'chex': chex_fns,
    'types': lambda I: {'FunctionType': J.FUNCTION_TYPE, 'LambdaType': J.FUNCTION_TYPE, 'SimpleNamespace': IT.Opaque('types.SimpleNamespace')},
    'absl': lambda I: {}, 'absl.logging': logging_fns, 'logging': logging_fns,
    'warnings': lambda I: {'warn': P(lambda *a, **k: None, 'warn'), 'simplefilter': P(lambda *a, **k: None, 'simplefilter')},
    'time': time_fns, 'random': pyrandom_fns, 'copy': copy_fns, 'enum': enum_fns, 'numbers': lambda I: {
        n: IT.Opaque('numbers.' + n) for n in ('Number', 'Real', 'Integral', 'Complex')},
    'abc': lambda I: {'ABC': IT.AClass('ABC', [], {}), 'abstractmethod': P(lambda f: f, 'abstractmethod'), 'ABCMeta': IT.Opaque('ABCMeta')},
    'contextlib': lambda I: {'nullcontext': P(lambda x=None: IT.Opaque('ctx:null'), 'nullcontext'), 'suppress': IT.Opaque('contextlib.suppress'), 'contextmanager': IT.Opaque('contextlib.contextmanager')},
    'textwrap': lambda I: {'dedent': P(lambda s: s, 'dedent')}, 'string': lambda I: {}, 're': lambda I: {},
}
_ = (operator, ExcVal)
