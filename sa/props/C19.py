"""masked is analysed around an opaque transformation for every mask of several tree structures
(leaf masks, prefix masks, callable masks, bare arrays): the graph of every leaf and of the inner
state is decided equal to running the transformation on the list of masked leaves alone and passing
the other leaves through."""
import itertools

from .. import terms as T, values as V
from ..opaque import Opaque, Elementwise
from ..spec import L, TREE, WIDE
from ..values import ANT, Arr

RULE = """value-graph equality around an uninterpreted inner transformation, all masks of the enumerated trees"""
FLOOR = 100


def expand(mask, tree):
  """Leaf mask of a prefix mask."""
  fl, td = V.tree_flatten(mask)
  subs = V.flatten_up_to(td, tree)
  return [bool(m.item().val if isinstance(m, Arr) else m) for m, s in zip(fl, subs) for _ in V.tree_leaves(s)]


def keep(bits, tree): return [l for l, b in zip(V.tree_leaves(tree), bits) if b]


def merge(bits, tree, new):
  it = iter(new)
  ls, td = V.tree_flatten(tree)
  return V.tree_unflatten(td, [next(it) if b else l for l, b in zip(ls, bits)])


def run(ctx, tree, mask, given, label, fn=None, steps=2):
  m = Opaque(ctx, 'in')
  tx = ctx.call('masked', m.tx, fn if fn is not None else mask)
  p = ctx.tree('p', tree)
  bits = expand(mask, p)
  s = ctx.init(tx, p)
  sel = keep(bits, p)
  inner = m.pure_init(sel)
  got = s.get('inner_state') if isinstance(s, ANT) and 'inner_state' in s.fields else s
  ctx.eq('masked', label + ': inner state holds the masked leaves only', V.tree_leaves(got), V.tree_leaves(inner))
  if isinstance(s, ANT) and 'inner_state' in s.fields:
    ls, td = V.tree_flatten(got)
    hv = [V.sym('s%d' % i, l.shape, 'real', l.dtype) for i, l in enumerate(ls)]
    s = ANT(s.cls, [V.tree_unflatten(td, hv) if f == 'inner_state' else s.get(f) for f in s.fields])
    inner = V.tree_unflatten(V.tree_structure(inner), hv)
  for k in range(steps):
    g, pk = ctx.tree('g%d' % k, tree), (ctx.tree('p%d' % k, tree) if given else None)
    u, s = ctx.update(tx, g, s, *([pk] if given else []))
    eu, inner = m.pure(keep(bits, g), inner, None if pk is None else keep(bits, pk))
    ctx.eq('masked', '%s: updates of step %d' % (label, k + 1), u, merge(bits, g, eu), dtypes=True)
    got = s.get('inner_state') if isinstance(s, ANT) and 'inner_state' in s.fields else s
    ctx.eq('masked', '%s: inner state after step %d' % (label, k + 1), V.tree_leaves(got), V.tree_leaves(inner), dtypes=True)


def elementwise(ctx):
  """Around an entrywise transformation the masked leaves do what they would do unmasked."""
  for bits in itertools.product((False, True), repeat=3):
    m = Elementwise(ctx, 'e')
    p = ctx.tree('p')
    ls, td = V.tree_flatten(p)
    tx = ctx.call('masked', m.tx, V.tree_unflatten(td, list(bits)))
    s = ctx.init(tx, p)
    s2 = ctx.init(m.tx, p)
    for k in range(2):
      g = ctx.tree('g%d' % k)
      u, s = ctx.update(tx, g, s, p)
      eu, s2 = ctx.update(m.tx, g, s2, p)
      ctx.eq('masked', 'entrywise member, mask %s: step %d' % (bits, k), u, merge(bits, g, keep(bits, eu)))


def two_halves(ctx):
  a, b = Opaque(ctx, 'a'), Opaque(ctx, 'b')
  p, g = ctx.tree('p'), ctx.tree('g')
  ls, td = V.tree_flatten(p)
  bits = [True, False, True]
  nb = [not x for x in bits]
  tx = ctx.call('chain', ctx.call('masked', a.tx, V.tree_unflatten(td, bits)), ctx.call('masked', b.tx, V.tree_unflatten(td, nb)))
  u, _ = ctx.update(tx, g, ctx.init(tx, p), p)
  ua, _ = a.pure(keep(bits, g), a.pure_init(keep(bits, p)), keep(bits, p))
  ub, _ = b.pure(keep(nb, g), b.pure_init(keep(nb, p)), keep(nb, p))
  ctx.eq('masked', 'complementary masks', u, merge(nb, merge(bits, g, ua), ub))


MASK_FNS = {'rank': lambda l: l.ndim != 1, 'size': lambda l: l.size > 1}


def callable_mask(ctx, nm, tree, given):
  f = MASK_FNS[nm]
  mf = ctx.prim(lambda t: V.tree_map(f, t), 'mask')
  p = ctx.tree('p', tree)
  run(ctx, tree, V.tree_map(f, p), given, 'callable mask by %s, params %s' % (nm, given), fn=mf)


SMALLT = {'a': L(2), 'b': [L(), (L(1, 2),)]}


def check(ctx):
  p = {'w': 0, 'b': (0,), 'z': [0]}
  td = V.tree_structure(p)
  for bits in itertools.product((False, True), repeat=td.num_leaves):
    for given in (True, False):
      ctx.section('leaf mask %s %s' % (bits, given), run, TREE, V.tree_unflatten(td, list(bits)), given,
                  'leaf mask %s, params %s' % (''.join('FT'[b] for b in bits), 'given' if given else 'omitted'))
  for m in ({'a': True, 'b': False}, {'a': False, 'b': True}, {'a': True, 'b': True}, {'a': False, 'b': [True, False]}, {'a': True, 'b': [False, (True,)]}, True, False):
    ctx.section('prefix %s' % (m,), run, SMALLT, m, True, 'prefix mask %s' % (m,))
  for m in (True, False):
    for sh in ((), (1,), (2,), (2, 2)):
      for given in (True, False):
        ctx.section('bare %s %s %s' % (m, sh, given), run, L(*sh), m, given, 'bare array %s, mask %s, params %s' % (list(sh), m, given))
  for m in ([True, False], [False, True]):
    ctx.section('list %s' % m, run, [L(2), L()], m, True, 'list tree, mask %s' % m)
    ctx.section('tuple %s' % m, run, (L(2), L()), tuple(m), True, 'tuple tree, mask %s' % m)
  n = V.tree_structure(ctx.tree('w', WIDE)).num_leaves
  wide = lambda f: V.tree_unflatten(V.tree_structure(ctx.tree('w', WIDE)), [f(i) for i in range(n)])
  for nm, f in (('all', lambda i: True), ('even', lambda i: i % 2 == 0), ('last', lambda i: i >= n - 3), ('middle', lambda i: 2 < i < 12)):
    ctx.section('wide ' + nm, run, WIDE, wide(f), True, 'wide tree, mask %s' % nm)
  for nm, y in (('integer', {True: 1, False: 0}), ('array', {b: V.const_arr(b, 'bool') for b in (True, False)}), ('numpy', {b: V.const_arr(b, 'bool', np_=True) for b in (True, False)})):
    for given in (True, False):
      for a, b in ((True, False), (False, True), (True, True)):
        ctx.section('%s mask %s%s' % (nm, a, b), run, {'a': L(2), 'b': L()}, {'a': y[a], 'b': y[b]}, given, '%s mask %s %s, params %s' % (nm, a, b, given))
  ctx.section('none', run, {'a': None, 'b': L(2), 'c': L()}, {'a': None, 'b': True, 'c': False}, True, 'tree with a None')
  ctx.section('half', run, {'a': L(2, dtype='float16'), 'b': L(2), 'c': L(dtype='bfloat16')}, {'a': True, 'b': False, 'c': False}, True, 'mixed precision')
  ctx.section('empty', run, {}, {}, True, 'empty tree')
  for nm in MASK_FNS:
    for given in (True, False): ctx.section('callable %s %s' % (nm, given), callable_mask, nm, TREE, given)
  ctx.section('elementwise', elementwise)
  ctx.section('two halves', two_halves)
  if ctx.thorough:
    big = {'a': [L(2), L()], 'b': {'c': L(1, 2), 'd': (L(3), L())}, 'e': L(2)}
    t = {'a': [0, 0], 'b': {'c': 0, 'd': (0, 0)}, 'e': 0}
    td = V.tree_structure(t)
    for bits in itertools.product((False, True), repeat=td.num_leaves):
      ctx.section('big %s' % (bits,), run, big, V.tree_unflatten(td, list(bits)), True, 'large tree, mask %s' % ''.join('FT'[b] for b in bits), steps=1)


_ = (T, Arr)
