"""safe_norm is interpreted on arrays of every rank: its value graph must be max(norm, min_norm) and
the reverse-mode derivative graph, evaluated with IEEE special-value rules, finite at zero, below, at
and above the floor; the graphs of functions that divide by a norm must be finite at zero vectors."""
from .. import terms as T, values as V
from ..spec import total
from ..values import Arr
from .C32 import m1

RULE = """value-graph equality with max(norm, min_norm); finiteness (IEEE) of value and derivative graphs at zero vectors and at the floor"""
FLOOR = 1000
SHAPES = ((), (1,), (2,), (3,), (2, 2), (2, 1, 2), (1, 2, 1, 2))
NAMES = ('safe_norm', '_src.numerics.safe_norm', '_src.utils.safe_norm')
ZEROISH = ('set', (0.0, -0.0, 1.0, -1.0, 0.25))


def norm(a): return T.unary('sqrt', total(a * a))


def fns(ctx): return [n for n in NAMES if ctx.has(n)]


def value(ctx, shp, jit):
  m = ctx.h('min_norm', ('range', 0.0, 4.0))
  for nm in fns(ctx):
    f = ctx.f(nm)
    for dom in ('real', ZEROISH, ('set', (0.0,))):
      x = ctx.arr('x', shp, dom)
      n = norm(x.a)
      lab = '%s %s%s, %s' % (nm.split('.')[-1] + (' (%s)' % nm if '.' in nm else ''), shp, ' compiled' if jit else '', dom if isinstance(dom, str) else 'zeros included' if len(dom[1]) > 1 else 'zero')
      ctx.I.jit = jit
      try:
        for k, mm, e in (('symbolic floor', m, m.item()), ('no floor', 0.0, T.ZERO), ('integer floor', 0, T.ZERO), ('array floor', ctx.arr('mn', (), ('range', 0., 4.)), None), ('large floor', 100.0, T.const(100.0))):
          r = ctx.call(f, x, mm)
          e = mm.item() if e is None else e
          ctx.true('shape', '%s, %s' % (lab, k), V.as_arr(r).shape == (), 'not a scalar')
          ctx.eq('value', '%s, %s' % (lab, k), r, Arr(V.oarr(T.maximum(n, e)), 'float32'), ctx.val(128), ieee=True)
        r = ctx.call(f, x=x, min_norm=m)
        ctx.eq('value', lab + ', keywords', r, Arr(V.oarr(T.maximum(n, m.item())), 'float32'), ctx.val(128))
      finally:
        ctx.I.jit = False


def gradient(ctx, nm, shp, jit):
  v = ctx.val(256)
  src = '''
  import jax
  import jax.numpy as jnp
  g = jax.grad(lambda x: f(x, m))(x0)
  h = jax.grad(lambda x: 3.0 * f(2.0 * x, m) ** 2 + f(x, m))(x0)
  k = jax.jvp(lambda x: f(x, m), (x0,), (t0,))[1]
  '''
  t0 = ctx.arr('t', shp)
  for dom in ('real', ZEROISH, ('set', (0.0,)), ('set', (0.5,)), ('set', (1e-30, 0.0)), ('set', (1e150, -3e149, 0.0))):
    x = ctx.arr('x', shp, dom)
    n = norm(x.a)
    for k, m in (('symbolic floor', ctx.h('m', ('range', 0.0, 3.0))), ('no floor', 0.0), ('floor one', 1.0), ('floor one half', 0.5), ('tiny floor', 1e-6)):
      lab = '%s %s%s, entries %s, %s' % (nm, shp, ' compiled' if jit else '', dom if isinstance(dom, str) else dom[1], k)
      ctx.I.jit = jit
      try:
        e = ctx.scripted(src, f=ctx.f(nm), m=m, x0=x, t0=t0)
      finally:
        ctx.I.jit = False
      for what in 'ghk':
        ctx.finite('gradient', '%s: %s' % (lab, dict(g='gradient', h='gradient of a composition', k='directional derivative')[what]), e[what], v)
      if dom == 'real':
        mt = m.item() if isinstance(m, Arr) else T.const(m)
        ctx.eq('gradient', lab + ': equals x over its norm above the floor, else zero', e['g'],
               Arr(V.vec(lambda t: T.ite(T.gt(n, mt), T.div(t, n), T.ZERO), x), 'float32'), v)


def dividers(ctx, shp, jit):
  """No NaN or infinity at zero vectors in functions that divide by a norm."""
  v = ctx.val(256)
  z = lambda l: Arr(V.vec(lambda t: T.ZERO, l), l.dtype, traced=True)
  ctx.I.jit = jit
  j = ' compiled' if jit else ''
  try:
    g, p = ctx.arr('g', shp, ZEROISH), ctx.arr('p', shp, ZEROISH)
    for nm, mk in (('scale_by_trust_ratio', lambda: ctx.call('scale_by_trust_ratio')), ('scale_by_trust_ratio with floor', lambda: ctx.call('scale_by_trust_ratio', 0.5)),
                   ('adaptive_grad_clip', lambda: ctx.call('adaptive_grad_clip', 0.3)), ('adaptive_grad_clip, tiny eps', lambda: ctx.call('adaptive_grad_clip', 0.3, 1e-9)),
                   ('clip_by_global_norm', lambda: ctx.call('clip_by_global_norm', 0.7)), ('lamb', lambda: ctx.call('lamb', 0.1)), ('fromage', lambda: ctx.call('fromage', 0.1))):
      for lab, a, b in (('zeros included', g, p), ('zero gradients', z(g), p), ('zero params', g, z(p)), ('both zero', z(g), z(p))):
        for bare in (True, False):
          wrap = (lambda x: x) if bare else (lambda x: {'a': [x], 'b': ctx.arr('o', (2,), ZEROISH)})
          tx = mk()
          s = ctx.init(tx, wrap(b))
          u, _ = ctx.update(tx, wrap(a), s, wrap(b))
          ctx.finite('divide', '%s %s%s, %s%s' % (nm, shp, j, lab, '' if bare else ' in a tree'), u, v)
    if shp:
      x, y = ctx.arr('x', shp, ZEROISH), ctx.arr('y', shp, ZEROISH)
      for lab, a, b in (('zeros included', x, y), ('zero predictions', z(x), y), ('zero targets', x, z(y)), ('both zero', z(x), z(y))):
        for fn in ('cosine_similarity', 'cosine_distance'):
          for eps in (1e-6, 0.5):
            r = ctx.call(fn, a, b, eps)
            ctx.finite('divide', '%s %s%s, %s, epsilon %g' % (fn, shp, j, lab, eps), r, v)
            e = ctx.scripted('''
            import jax
            import jax.numpy as jnp
            g = jax.grad(lambda x: jnp.sum(f(x, y, eps)))(x0)
            h = jax.grad(lambda y: jnp.sum(f(x0, y, eps)))(y)
            ''', f=ctx.f(fn), x0=a, y=b, eps=eps)
            ctx.finite('divide', '%s %s%s, %s, epsilon %g: gradients' % (fn, shp, j, lab, eps), [e['g'], e['h']], v)
  finally:
    ctx.I.jit = False


def check(ctx):
  for shp in tuple(SHAPES) + tuple((n,) for n in ctx.sizes('numerics.py', lo=15, hi=300)):
    for jit in (False, True):
      ctx.section('value %s %s' % (shp, jit), value, shp, jit)
      ctx.section('dividers %s %s' % (shp, jit), dividers, shp, jit)
    ctx.section('gradient %s' % (shp,), gradient, '_src.numerics.safe_norm', shp, False)
    if shp in ((2,), (2, 2)) or ctx.thorough: ctx.section('gradient %s jit' % (shp,), gradient, '_src.numerics.safe_norm', shp, True)


_ = m1
