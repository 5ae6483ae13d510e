"""apply_updates, incremental_update and periodic_update: value graphs and leaf dtypes decided equal
to the documented per-leaf equations for symbolic trees, step sizes, counts and periods."""
from .. import terms as T, values as V
from ..spec import L, MIXED, ref, TREE, WIDE
from ..values import Arr
from .C17 import sel
from .C32 import m1, RANKS

RULE = """value-graph equality with the documented per-leaf equation; leaf dtypes preserved"""
FLOOR = 40

TREES = (('nested', TREE), ('mixed', MIXED), ('ranks', RANKS), ('bare', L(3)), ('scalar', L()), ('none', {'a': None, 'b': (L(2), None)}), ('empty', {}), ('wide', WIDE))


def cast(tree, d): return V.tree_map(lambda l: Arr(l.a, d or l.dtype), tree)


def apply(ctx, label, tree):
  p = ctx.tree('p', tree)
  for d in (None, 'float32', 'float16'):
    u = cast(ctx.tree('u', tree), d)
    lab = '%s, updates %s' % (label, d or 'of the same dtypes')
    ctx.eq('apply_updates', lab, ctx.call('apply_updates', p, u), m1(lambda a, b: a + b, p, u), dtypes=True)
  ctx.eq('apply_updates', label + ', keywords', ctx.call('apply_updates', params=p, updates=u), m1(lambda a, b: a + b, p, u), dtypes=True)
  z = ctx.tree('u', tree, dom=('set', (float('inf'), float('nan'), 1.0)))
  ctx.eq('apply_updates', label + ', special values', ctx.call('apply_updates', p, z), m1(lambda a, b: a + b, p, z), dtypes=True, ieee=True)


def apply_py(ctx):
  """Python scalars as params keep their meaning."""
  a = ctx.h('a', 'real')
  r = ctx.call('apply_updates', {'x': a}, {'x': ctx.arr('u')})
  ctx.eq('apply_updates', 'python float param', r, {'x': ref(a.item() + T.var('u'))})
  r = ctx.call('apply_updates', {'x': a, 'y': 1.5}, {'x': ctx.h('b', 'real'), 'y': 0.25})
  ctx.eq('apply_updates', 'python float params and updates', r, {'x': ref(a.item() + T.var('b')), 'y': ref(T.const(1.75))})


def apply_rounds_once(ctx):
  """The sum is taken in the promoted type and converted to the param's type once."""
  V.ROUNDING[0] = True
  for d, w in (('float16', 'float32'), ('bfloat16', 'float32'), ('int32', 'float32')):
    p, u = cast(ctx.tree('p', TREE, dom=('ints', -9, 9) if d == 'int32' else 'real'), d), ctx.tree('u', TREE)
    e = V.tree_map(lambda a, b: V.cast(Arr(a.a + b.a, w), d), p, u)
    ctx.eq('apply_updates', '%s params, %s updates: one conversion, after the addition' % (d, w), ctx.call('apply_updates', p, u), e, dtypes=True)


def incr(ctx, label, tree):
  n, o = ctx.tree('n', tree), ctx.tree('o', tree)
  for k, st in (('python float', ctx.h('st', 'unit')), ('array', ctx.arr('st', (), 'unit', weak=True))):
    e = m1(lambda a, b: st.item() * a + (1.0 - st.item()) * b, n, o)
    ctx.eq('incremental_update', '%s, step size %s' % (label, k), ctx.call('incremental_update', n, o, st), e, dtypes=True)
    ctx.eq('incremental_update', '%s, step size %s, keywords' % (label, k), ctx.call('incremental_update', new_tensors=n, old_tensors=o, step_size=st), e, dtypes=True)
  for dn, do in (('float32', 'bfloat16'), ('bfloat16', 'float32'), ('float16', 'float32')):
    nn, oo = cast(n, dn), cast(o, do)
    e = m1(lambda a, b: st.item() * a + (1.0 - st.item()) * b, cast(n, 'float32'), cast(o, 'float32'))
    ctx.eq('incremental_update', '%s, %s into %s' % (label, dn, do), ctx.call('incremental_update', nn, oo, ctx.h('st', 'unit')), e, dtypes=True)
  ctx.eq('incremental_update', label + ', step size 1', ctx.call('incremental_update', n, o, 1.0), n)
  ctx.eq('incremental_update', label + ', step size 0', ctx.call('incremental_update', n, o, 0.0), o)


def peri(ctx, label, tree):
  n, o = ctx.tree('n', tree), ctx.tree('o', tree)
  k = ctx.h('k', ('ints', 1, 6), 'int')
  v = ctx.val(256, st=('ints', 0, 24))
  for how, s in (('array', ctx.arr('st', (), 'count', 'int32')), ('python int', ctx.h('st', 'count', 'int'))):
    e = sel(T.eq(T.mod(s.item(), k.item()), T.ZERO), n, o)
    ctx.eq('periodic_update', '%s, steps as %s' % (label, how), ctx.call('periodic_update', n, o, s, k), e, v, dtypes=True)
    ctx.eq('periodic_update', '%s, steps as %s, keywords' % (label, how), ctx.call('periodic_update', new_tensors=n, old_tensors=o, steps=s, update_period=k), e, v, dtypes=True)
  for kk in (1, 2, 3, 5):
    for st in range(0, 11):
      r = ctx.call('periodic_update', n, o, V.const_arr(st, 'int32'), kk)
      ctx.eq('periodic_update', '%s, step %d of period %d' % (label, st, kk), r, n if st % kk == 0 else o, dtypes=True)
  # exactness: special values of the other side do not leak
  bn = ctx.tree('n', tree, dom=('set', (float('nan'), float('inf'))))
  r = ctx.call('periodic_update', bn, o, V.const_arr(3, 'int32'), 2)
  ctx.eq('periodic_update', label + ', special values do not leak', r, o, ieee=True)
  st = ctx.arr('st', (), 'count', 'int32')
  r = ctx.call('periodic_update', bn, o, st, 2)
  ctx.eq('periodic_update', label + ', special values do not leak (traced)', r, sel(T.eq(T.mod(st.item(), T.const(2)), T.ZERO), bn, o), v, ieee=True)


def check(ctx):
  for nm, tree in tuple(TREES) + tuple(ctx.directed('update.py').items()):
    ctx.section('apply ' + nm, apply, nm, tree)
    ctx.section('incr ' + nm, incr, nm, tree)
    ctx.section('peri ' + nm, peri, nm, tree)
  ctx.section('apply py', apply_py)
  ctx.section('apply rounds once', apply_rounds_once)
