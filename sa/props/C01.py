"""chain is analysed with opaque members (uninterpreted functions of everything they receive), so
the extracted update and state graphs decide for arbitrary members that member i gets the output
of member i-1, its own state and the caller's params; state count mismatches must raise on
every path."""
from .. import values as V
from ..opaque import Opaque
from ..spec import L, TREE

RULE = """value-graph equality of chain over uninterpreted members with the left-to-right composition;
raise-on-every-path for wrong state counts"""
FLOOR = 60
TREES = {'nested': TREE, 'bare': L(2), 'scalar': L(), 'empty': {}}


def seq(ctx, name, s, n):
  return ctx.true('chain', name + ': one state per member', isinstance(s, (list, tuple)) and not isinstance(s, V.ANT) and len(s) == n,
                  'chained state of %d members is %s' % (n, V.describe(s)))


def compose(ctx, n, tree, given, label):
  ms = [Opaque(ctx, 'm%d' % i) for i in range(n)]
  tx = ctx.call('chain', *[m.tx for m in ms])
  p = ctx.tree('p', tree)
  s = ctx.init(tx, p)
  if not seq(ctx, label + ' init', s, n): return
  for i, m in enumerate(ms):
    ctx.eq('chain', '%s: state of member %d initialised from params' % (label, i), s[i], m.pure_init(p))
  # from arbitrary member states, then a second step with the resulting state
  st = type(s)(m.havoc('s', p) for m in ms)
  ref = [x for x in st]
  for k in range(2):
    g = ctx.tree('g%d' % k, tree)
    pk = ctx.tree('p%d' % k, tree) if given else None
    r = ctx.guard('%s step %d' % (label, k), ctx.update, tx, g, st, *([pk] if given else []))
    if r is None: return
    u, st = r
    eu = g
    for i, m in enumerate(ms):
      eu, ref[i] = m.pure(eu, ref[i], pk)
    ctx.eq('chain', '%s: updates of step %d' % (label, k), u, eu)
    if not seq(ctx, '%s step %d' % (label, k), st, n): return
    for i in range(n):
      ctx.eq('chain', '%s: next state of member %d after step %d' % (label, i, k), st[i], ref[i])


def history(ctx, n):
  """init, then steps with params present or absent: observational."""
  ms = [Opaque(ctx, 'm%d' % i) for i in range(n)]
  tx = ctx.call('chain', *[m.tx for m in ms])
  p = ctx.tree('p', TREE)
  s = ctx.init(tx, p)
  ref = [m.pure_init(p) for m in ms]
  for k in range(3):
    g = ctx.tree('g%d' % k)
    pk = None if k == 1 else ctx.tree('p%d' % k)
    u, s = ctx.update(tx, g, s, *([] if pk is None else [pk]))
    eu = g
    for i, m in enumerate(ms): eu, ref[i] = m.pure(eu, ref[i], pk)
    ctx.eq('chain', 'history of %d members: updates of step %d' % (n, k), u, eu)


def nested(ctx):
  a, b, c, d = ms = [Opaque(ctx, 'm%d' % i) for i in range(4)]
  ch = lambda *x: ctx.call('chain', *x)
  shapes = {'(a,(b,c),d)': ch(a.tx, ch(b.tx, c.tx), d.tx), '((a,b),(c,d))': ch(ch(a.tx, b.tx), ch(c.tx, d.tx)),
            '((((a,b),c),d))': ch(ch(ch(ch(a.tx, b.tx), c.tx), d.tx)), '(a,(b,(c,(d))))': ch(a.tx, ch(b.tx, ch(c.tx, ch(d.tx))))}
  p = ctx.tree('p')
  for nm, tx in shapes.items():
    s = ctx.init(tx, p)
    ref = [m.pure_init(p) for m in ms]
    for k in range(2):
      g, pk = ctx.tree('g%d' % k), ctx.tree('p%d' % k)
      u, s = ctx.update(tx, g, s, pk)
      eu = g
      for i, m in enumerate(ms): eu, ref[i] = m.pure(eu, ref[i], pk)
      ctx.eq('nested', 'nested chain %s: updates of step %d' % (nm, k), u, eu)


def odd_states(ctx):
  """Members may keep any state, also ones that are None, empty or false."""
  p, g = ctx.tree('p'), ctx.tree('g')
  for a, b in ((None, V.const_arr(1, 'int32')), (V.const_arr(1, 'int32'), None), (0, 1), (1, 0), (False, True), ((), (1,)), ((1,), ()), ([], {}), ({}, []), (None, None)):
    log = []

    def up(u, s, p=None):
      log.append(s)
      return u, b
    m, o = ctx.tx(lambda p: a, up), Opaque(ctx, 'o')
    for pos in (0, 1, 2):
      del log[:]
      ms = [o.tx, o.tx]
      ms.insert(pos, m)
      tx = ctx.call('chain', *ms)
      s = ctx.init(tx, p)
      lab = 'state %s then %s, position %d' % (V.describe(a), V.describe(b), pos)
      if not seq(ctx, lab, s, 3): return
      _, s = ctx.update(tx, g, s, p)
      if not seq(ctx, lab, s, 3): return
      _, s = ctx.update(tx, g, s, p)
      ctx.true('chain', lab, len(log) == 2 and log[0] is a and log[1] is b and s[pos] is b, 'the member receives %s and leaves %s' % ([V.describe(x) for x in log], V.describe(s[pos])))


def repeated(ctx, n):
  """One transformation n times."""
  m = Opaque(ctx, 'm')
  tx = ctx.call('chain', *[m.tx] * n)
  p, g = ctx.tree('p', L()), ctx.tree('g', L())
  s = ctx.init(tx, p)
  if not seq(ctx, 'one transformation %d times' % n, s, n): return
  ref, eu = [m.pure_init(p)] * n, g
  ctx.eq('chain', 'one transformation %d times: initial states' % n, list(s), ref)
  u, s = ctx.update(tx, g, s, p)
  for i in range(n): eu, ref[i] = m.pure(eu, ref[i], p)
  ctx.eq('chain', 'one transformation %d times: updates' % n, u, eu)
  ctx.eq('chain', 'one transformation %d times: states' % n, list(s), ref)


def same_member_twice(ctx):
  m = Opaque(ctx, 'm')
  tx = ctx.call('chain', m.tx, m.tx)
  p = ctx.tree('p')
  s = ctx.init(tx, p)
  g = ctx.tree('g')
  st = type(s)([m.havoc('a', p), m.havoc('b', p)])
  u, s1 = ctx.update(tx, g, st, p)
  e1, n1 = m.pure(g, st[0], p)
  e2, n2 = m.pure(e1, st[1], p)
  ctx.eq('chain', 'one transformation used twice keeps two states: updates', u, e2)
  ctx.eq('chain', 'one transformation used twice keeps two states: states', list(s1), [n1, n2])


def identity(ctx):
  tx = ctx.call('identity')
  for nm, t in TREES.items():
    p, g = ctx.tree('p', t), ctx.tree('g', t)
    s = ctx.init(tx, p)
    u, s1 = ctx.update(tx, g, s, p)
    ctx.eq('identity', 'identity on %s: updates' % nm, u, g, dtypes=True)
    ctx.eq('identity', 'identity on %s: state' % nm, s1, s)
    u, _ = ctx.update(tx, g, s)
    ctx.eq('identity', 'identity without params on %s' % nm, u, g, dtypes=True)
  m = Opaque(ctx, 'm')
  for nm, tx in {'first': ctx.call('chain', ctx.call('identity'), m.tx), 'last': ctx.call('chain', m.tx, ctx.call('identity'))}.items():
    p, g = ctx.tree('p'), ctx.tree('g')
    u, _ = ctx.update(tx, g, ctx.init(tx, p), p)
    ctx.eq('identity', 'identity %s in a chain' % nm, u, m.pure(g, m.pure_init(p), p)[0])


def wrong(ctx, n, k):
  ms = [Opaque(ctx, 'm%d' % i) for i in range(n)]
  tx = ctx.call('chain', *[m.tx for m in ms])
  p, g = ctx.tree('p'), ctx.tree('g')
  s = ctx.init(tx, p)
  bad = type(s)([ms[i % n].havoc('s%d' % i, p) for i in range(k)])
  ctx.expect_raise('state count', '%d states for %d members' % (k, n), lambda: ctx.update(tx, g, bad, p))
  ctx.expect_raise('state count', '%d states for %d members, no params' % (k, n), lambda: ctx.update(tx, g, bad))


def check(ctx):
  for n in ((1, 2, 3, 4, 5, 8) if ctx.thorough else (1, 2, 3, 4)):
    for given in (True, False):
      ctx.section('chain %d %s' % (n, given), compose, n, TREE, given, 'chain of %d, params %s' % (n, 'given' if given else 'omitted'))
  for nm, t in TREES.items():
    ctx.section('tree ' + nm, compose, 2, t, True, 'chain of 2 on %s tree' % nm)
  ctx.section('history', history, 3)
  for n in ctx.sizes('combine.py', 'base.py', hi=200): ctx.section('chain %d' % n, compose, n, L(), True, 'chain of %d' % n)
  for n in (1, 2, 3, 4, 7, 12) + tuple(ctx.sizes('combine.py', 'base.py', hi=60)): ctx.section('repeated %d' % n, repeated, n)
  ctx.section('nested', nested)
  ctx.section('odd states', odd_states)
  ctx.section('twice', same_member_twice)
  ctx.section('identity', identity)
  for n in (1, 2, 3, 4):
    for k in range(0, n + 3):
      if k != n: ctx.section('wrong %d %d' % (n, k), wrong, n, k)
