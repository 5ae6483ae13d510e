"""inject_hyperparams is interpreted around an uninterpreted factory (every hyperparameter enters every
output through an uninterpreted function) for every argument-passing style and kind of value, and around
every public factory: the hyperparameters it stores and the factory call it makes are compared with the
direct call using those hyperparameters, step by step, from initial and from arbitrary states."""
from .. import terms as T, values as V
from ..spec import L, MIXED, TREE
from ..values import Arr

RULE = """factory is called with schedule(count of the update) for schedules, the stored value for numerics, the given object for everything else; results equal the direct factory's"""
FLOOR = 5000
MAXI = T.const(2147483647)

FACTORY = '''
def plain(a, b=0.5, c=3, *, d=0.25, flag=True, name='x', opt=None, fn=None, tup=(1, 2)):
  return make(dict(a=a, b=b, c=c, d=d, flag=flag, name=name, opt=opt, fn=fn, tup=tup))

def swapped(b, a=0.5, d=0.125, c=3, flag=False, tup=(), fn=None, name=None, opt=None):
  return make(dict(a=a, b=b, c=c, d=d, flag=flag, name=name, opt=opt, fn=fn, tup=tup))

class Maker:
  def __call__(self, a, b=0.5, c=3, d=0.75, flag=True, name='x', opt=None, fn=None, tup=(1, 2)):
    return make(dict(a=a, b=b, c=c, d=d, flag=flag, name=name, opt=opt, fn=fn, tup=tup))
  def method(self, a, b=0.5, c=3, d=0.75, flag=True, name='x', opt=None, fn=None, tup=(1, 2)):
    return make(dict(a=a, b=b, c=c, d=d, flag=flag, name=name, opt=opt, fn=fn, tup=tup))
maker = Maker()
method = maker.method
one = lambda a: make(dict(a=a))
partial = functools.partial(plain, b=0.375, name='bound')
def user_schedule(count): return sched_body(count)
class UserSchedule:
  def __call__(self, count): return sched_body(count)
user_object = UserSchedule()
'''
FACTS = ('plain', 'swapped', 'maker', 'method', 'partial')
NAMES = ('a', 'b', 'c', 'd', 'flag', 'name', 'opt', 'fn', 'tup')


class Rig:
  def __init__(self, ctx):
    self.ctx, self.log, self.silent = ctx, [], False

    def make(d):
      d = dict(d)
      if not self.silent: self.log.append(d)
      hp = [V.as_arr(d[k]) for k in sorted(d) if isinstance(d[k], (Arr, int, float)) and not isinstance(d[k], bool)]
      ts = [t for h in hp for t in h.terms()]
      f = lambda tag: (lambda *ls: Arr(V.vec(lambda *x: T.app(tag, list(x) + ts), *ls), V.as_arr(ls[0]).dtype, traced=True))

      def init(p): return {'m': V.tree_map(f('I'), p), 'k': Arr(V.oarr(T.app('K', ts)), 'float32', traced=True)}

      def update(u, s, p=None):
        a = (u, s['m']) if p is None else (u, s['m'], p)
        n = '' if p is None else 'p'
        return V.tree_map(f('U' + n), *a), {'m': V.tree_map(f('M' + n), *a), 'k': Arr(V.vec(lambda k: T.app('K2', [k] + ts), s['k']), 'float32', traced=True)}
      return ctx.tx(init, update)

    self.env = ctx.scripted('import functools\n' + FACTORY, make=ctx.prim(make, 'make'),
                            sched_body=ctx.prim(lambda c: app('user', c), 'sched_body'))

  def direct(self, name, kw):
    self.silent = True
    try: return self.ctx.I.call(self.env[name], [], kw)
    finally: self.silent = False


def app(name, c): return Arr(V.oarr(T.app(name, [V.step_term(c)])), 'float32', True, True)
def nparr(a):
  a.np = True
  return a


def sched(ctx, name): return ctx.prim(lambda c: app(name, c), name)


VALUES = {                       # kind -> (value, is it scheduled, does its dtype follow the tree)
    'float': lambda c, r, k: c.h('h' + k),
    'literal': lambda c, r, k: {'a': 0.75, 'b': 0.5, 'c': 2.5, 'd': 0.3125}[k],
    'int': lambda c, r, k: {'a': 5, 'b': 7, 'c': 11, 'd': 13}[k],
    'small int': lambda c, r, k: {'a': 0, 'b': 1, 'c': -1, 'd': 2}[k],
    'special float': lambda c, r, k: {'a': 0.0, 'b': 1.0, 'c': -1.0, 'd': 2.0}[k],
    'array': lambda c, r, k: c.arr('x' + k, (), 'unit'),
    'numpy array': lambda c, r, k: nparr(c.arr('y' + k, (), 'unit', traced=False)),
    'int array': lambda c, r, k: c.arr('n' + k, (), 'posint', 'int32'),
    'schedule': lambda c, r, k: sched(c, 's' + k),
    'function': lambda c, r, k: r.env['user_schedule'],
    'object': lambda c, r, k: r.env['user_object'],
    'library schedule': lambda c, r, k: c.call('linear_schedule', 0.5, 0.125, {'a': 4, 'b': 5, 'c': 6, 'd': 7}[k]),
}


def value_at(ctx, v, count):
  """The numeric value of a hyperparameter at a count."""
  if isinstance(v, (Arr, int, float)): return V.as_arr(v)
  return V.as_arr(ctx.I.call(v, [count]))


def dtype_of(v, tree_dtype):
  v = V.as_arr(v)
  return v.dtype if not V.is_float(v.dtype) else tree_dtype


def with_(s, **kw): return V.ANT(s.cls, [kw.get(f, x) for f, x in zip(s.fields, s)])


def steps(ctx, rig, fname, given, numeric, scheduled, static, tx, p, lab, n=3, jit=False, params=True):
  """init and n updates against the direct factory; numeric/scheduled: name -> value, static: name -> object."""
  v = ctx.val(24)
  leaves = V.tree_leaves(p)
  dt = leaves[0].dtype if leaves else 'float32'
  del rig.log[:]
  s = ctx.init(tx, p)

  def look(s, count, stored, what):
    hp = V.rget(s, 'hyperparams')
    want = {k: stored[k] for k in numeric}
    want.update({k: value_at(ctx, f, V.const_arr(count, 'int32')) for k, f in scheduled.items()})
    ctx.true('keys', '%s, %s: exposed names' % (lab, what), sorted(hp) == sorted(want), 'hyperparams has %s, documented %s' % (sorted(hp), sorted(want)))
    for k in want:
      if k not in hp: continue
      ctx.eq('exposed', '%s, %s: %s' % (lab, what, k), hp[k], Arr(V.as_arr(want[k]).a, dtype_of(want[k], dt)), v, dtypes=V.is_float(V.as_arr(want[k]).dtype))
      if not V.is_float(V.as_arr(want[k]).dtype):
        ctx.true('integer', '%s, %s: %s stays an integer' % (lab, what, k), not V.is_float(V.as_arr(hp[k]).dtype), 'an integer hyperparameter is exposed as %s' % V.as_arr(hp[k]).dtype)
        for d in rig.log:
          if k in d: ctx.true('integer', '%s, %s: %s reaches the factory as an integer' % (lab, what, k), not V.is_float(V.as_arr(d[k]).dtype), 'an integer hyperparameter reaches the factory as %s' % V.as_arr(d[k]).dtype)
    ctx.eq('count', '%s, %s: count' % (lab, what), V.rget(s, 'count'), V.const_arr(count, 'int32'), v)
    calls = rig.log
    ctx.true('factory', '%s, %s: the factory is used' % (lab, what), len(calls) >= 1, 'the factory was not called')
    for d in calls:
      for k, o in static.items():
        ctx.true('static', '%s, %s: %s reaches the factory unchanged' % (lab, what, k), d.get(k) is o or (not isinstance(o, (Arr, dict, list)) and type(d.get(k)) is type(o) and d.get(k) == o), 'the factory receives %r, given %r' % (d.get(k), o))
      for k in want: ctx.eq('factory', '%s, %s: value of %s' % (lab, what, k), d.get(k, 0), V.as_arr(want[k]), v)
    del rig.log[:]
    return hp

  stored = dict(numeric)
  look(s, 0, stored, 'init')
  hp = {k: x for k, x in V.rget(s, 'hyperparams').items()}
  ref = rig.direct(fname, {**static, **hp})
  ctx.eq('inner', lab + ': initial inner state is the factory\'s', V.rget(s, 'inner_state'), ctx.init(ref, p), v)
  for k in range(1, n + 1):
    g = V.tree_map(lambda l, i=iter(range(99)): ctx.arr('g%d_%d' % (k, next(i)), l.shape, 'real', l.dtype), p)
    old = s
    if k == 2:        # manual override of everything in the state
      over = {x: ctx.arr('over_' + x, (), 'unit', V.as_arr(y).dtype) for x, y in V.rget(s, 'hyperparams').items()}
      old = with_(s, hyperparams=over)
      for x in numeric: stored[x] = over[x]
    a = (p,) if params else ()
    ctx.I.jit = jit
    try: u, s = ctx.update(tx, g, old, *a)
    finally: ctx.I.jit = False
    what = 'update %d%s' % (k, ' after changing hyperparams in the state' if k == 2 else '')
    hp = look(s, k, stored, what)
    ref = rig.direct(fname, {**static, **dict(hp)})
    ru, rs = ctx.update(ref, g, V.rget(old, 'inner_state'), *a)
    ctx.eq('update', '%s, %s: updates' % (lab, what), u, ru, v, dtypes=True)
    ctx.eq('update', '%s, %s: inner state' % (lab, what), V.rget(s, 'inner_state'), rs, v, dtypes=True)
  # arbitrary (also saturated) counts
  c = ctx.arr('count', (), 'bigcount', 'int32')
  old = with_(s, count=c)
  u, s2 = ctx.update(tx, g, old, *a)
  nxt = T.ite(T.lt(c.item(), MAXI), T.add(c.item(), T.ONE), MAXI)
  for k, f in scheduled.items():
    e = value_at(ctx, f, Arr(V.oarr(nxt), 'int32', traced=True))
    ctx.eq('exposed', '%s, any count: %s' % (lab, k), V.rget(s2, 'hyperparams')[k], Arr(e.a, dtype_of(e, dt)), ctx.val(128))
  ctx.eq('count', lab + ', any count: count', V.rget(s2, 'count'), Arr(V.oarr(nxt), 'int32'), ctx.val(128))


def styles(ctx, fname, kind, style, tree, jit, params):
  rig = Rig(ctx)
  mk = VALUES[kind]
  objs = {'flag': False, 'name': 'label', 'opt': None, 'tup': (3, (4, 'z'))}
  order = {'plain': 'abcd', 'swapped': 'badc', 'maker': 'abcd', 'method': 'abcd', 'partial': 'acd'}[fname]
  defaults = {'plain': dict(b=0.5, c=3, d=0.25), 'swapped': dict(a=0.5, d=0.125, c=3), 'maker': dict(b=0.5, c=3, d=0.75), 'method': dict(b=0.5, c=3, d=0.75), 'partial': dict(b=0.375, c=3, d=0.25)}[fname]
  sdef = {'plain': dict(flag=True, name='x', opt=None, fn=None, tup=(1, 2)), 'swapped': dict(flag=False, tup=(), fn=None, name=None, opt=None), 'partial': dict(flag=True, name='bound', opt=None, fn=None, tup=(1, 2))}
  sdef = sdef.get(fname, sdef['plain'])
  vals = {k: mk(ctx, rig, k) for k in order}
  lab = '%s(%s), %s%s%s' % (fname, style, kind, '' if tree is TREE else ', ' + str(V.describe(tree))[:40], ' compiled' if jit else '')
  kwonly = {'plain': 'd', 'partial': 'cd'}.get(fname, '')
  f = ctx.call('inject_hyperparams', rig.env[fname])
  if style == 'positional':
    pos = [k for k in order if k not in kwonly]
    got = ctx.I.call(f, [vals[k] for k in pos], {})
    given, stat = {k: vals[k] for k in pos}, dict(sdef)
  elif style == 'keyword':
    got = ctx.I.call(f, [], {**{k: vals[k] for k in reversed(order)}, **objs})
    given, stat = vals, {**sdef, **objs}
  elif style == 'mixed':
    first = order[0]
    rest = {k: vals[k] for k in order[2:]}
    got = ctx.I.call(f, [vals[first]], {**rest, 'tup': objs['tup']})
    given, stat = {first: vals[first], **rest}, {**sdef, 'tup': objs['tup']}
  elif style == 'defaults':
    got = ctx.I.call(f, [vals[order[0]]], {})
    given, stat = {order[0]: vals[order[0]]}, dict(sdef)
  hp = {**{k: x for k, x in defaults.items()}, **given}
  numeric = {k: x for k, x in hp.items() if isinstance(x, (Arr, int, float))}
  scheduled = {k: x for k, x in hp.items() if k not in numeric}
  steps(ctx, rig, fname, given, numeric, scheduled, stat, got, ctx.tree('p', tree), lab, 3, jit, params)


def no_arguments(ctx):
  """A factory called without any argument exposes its numeric defaults."""
  p = ctx.tree('p', TREE)
  for nm, want in (('scale_by_adam', dict(b1=0.9, b2=0.999, eps=1e-8, eps_root=0.0)), ('scale_by_rss', dict(initial_accumulator_value=0.1, eps=1e-7)),
                   ('add_decayed_weights', dict(weight_decay=0.0)), ('apply_every', dict(k=1)), ('centralize', {}), ('identity', {})):
    tx = ctx.I.call(ctx.call('inject_hyperparams', ctx.f(nm)), [])
    s = ctx.init(tx, p)
    hp = V.rget(s, 'hyperparams')
    ctx.true('keys', nm + '() exposes its numeric defaults', sorted(hp) == sorted(want), 'hyperparams has %s, documented %s' % (sorted(hp), sorted(want)))
    for k in want:
      if k in hp: ctx.eq('exposed', '%s(): %s' % (nm, k), hp[k], V.const_arr(want[k], V.as_arr(hp[k]).dtype))
    d = ctx.call(nm)
    u, _ = ctx.update(tx, p, s, p)
    ctx.eq('update', nm + '(): updates', u, ctx.update(d, p, ctx.init(d, p), p)[0], ctx.val(16))


def mixture(ctx, fname, jit):
  """A different kind of value for every hyperparameter at once, with static callables and numbers."""
  rig = Rig(ctx)
  fn = rig.env['user_schedule']
  for st, how in ((('fn',), 'tuple'), ('fn', 'string'), (['fn', 'd'], 'list'), ({'fn', 'b'}, 'set'), (('name', 'fn', 'a'), 'names')):
    vals = dict(a=sched(ctx, 'sa'), b=ctx.h('hb'), c=7, d=ctx.arr('xd', (), 'unit'), flag=True, name='n', opt={'k': 1}, fn=fn, tup=[1, 2])
    names = {st} if isinstance(st, str) else set(st)
    if 'a' in names: vals['a'] = ctx.h('ha')
    stat = {k: x for k, x in vals.items() if k in names or k in ('flag', 'name', 'opt', 'fn', 'tup')}
    hp = {k: x for k, x in vals.items() if k not in stat}
    arg = st
    f = ctx.call('inject_hyperparams', rig.env[fname], arg)
    got = ctx.I.call(f, [], dict(vals))
    numeric = {k: x for k, x in hp.items() if isinstance(x, (Arr, int, float))}
    lab = '%s, static_args as %s%s' % (fname, how, ' compiled' if jit else '')
    steps(ctx, rig, fname, hp, numeric, {k: x for k, x in hp.items() if k not in numeric}, stat, got, ctx.tree('p', TREE), lab, 2, jit)
    g = ctx.I.call(ctx.call('inject_hyperparams', inner_factory=rig.env[fname], static_args=arg), [], dict(vals))
    p = ctx.tree('p', TREE)
    ctx.eq('keywords', lab + ': arguments by keyword', ctx.init(g, p), ctx.init(got, p), ctx.val(8))


def rejects(ctx):
  rig = Rig(ctx)
  for st in ('zz', ('a', 'zz'), ['zz'], {'b', 'q'}, 'a,b', 'a b', ''):
    ctx.expect_raise('static', 'static_args %r is rejected' % (st,), lambda: ctx.call('inject_hyperparams', rig.env['plain'], st), (ValueError,))
  for st in ('a', ('a', 'b'), ()): ctx.guard('static_args %r accepted' % (st,), ctx.call, 'inject_hyperparams', rig.env['plain'], st)
  f = ctx.call('inject_hyperparams', rig.env['plain'])
  for lab, a, kw in (('missing argument', [], {}), ('unknown keyword', [0.1], {'zz': 1}), ('too many positional', [0.1, 0.2, 3, 0.4], {}), ('twice', [0.1], {'a': 0.2})):
    ctx.expect_raise('signature', lab + ' is rejected', lambda: ctx.I.call(f, list(a), dict(kw)), (TypeError,))
  # two instances from one wrapper do not share anything
  t1, t2 = ctx.I.call(f, [0.25]), ctx.I.call(f, [0.75], {'b': 0.125})
  p = ctx.tree('p', TREE)
  s1, s2 = ctx.init(t1, p), ctx.init(t2, p)
  ctx.eq('independent', 'first instance', V.rget(s1, 'hyperparams')['a'], V.const_arr(0.25, 'float32'))
  ctx.eq('independent', 'second instance', V.rget(s2, 'hyperparams')['a'], V.const_arr(0.75, 'float32'))
  _, s1b = ctx.update(t1, p, s1, p)
  ctx.eq('independent', 'first instance after the second was made', V.rget(s1b, 'hyperparams')['b'], V.const_arr(0.5, 'float32'))


FACTORIES = {   # public factory -> (kwargs made numeric or scheduled, other kwargs, static)
    'adabelief': (dict(learning_rate=0.125, b1=0.875, b2=0.75, eps=0.0625), {}),
    'adagrad': (dict(learning_rate=0.125, initial_accumulator_value=0.25, eps=0.0625), {}),
    'adam': (dict(learning_rate=0.125, b1=0.875, b2=0.75, eps=0.0625, eps_root=0.03125), {}),
    'adamw': (dict(learning_rate=0.125, b1=0.875, b2=0.75, eps=0.0625, eps_root=0.03125, weight_decay=0.5), {}),
    'fromage': (dict(learning_rate=0.125, min_norm=0.25), {}),
    'lamb': (dict(learning_rate=0.125, b1=0.875, b2=0.75, eps=0.0625, eps_root=0.03125, weight_decay=0.5), {}),
    'noisy_sgd': (dict(learning_rate=0.125, eta=0.5, gamma=0.375), dict(seed=3)),
    'radam': (dict(learning_rate=0.125, b1=0.875, b2=0.75, eps=0.0625, threshold=2.0), {}),
    'rmsprop': (dict(learning_rate=0.125, decay=0.875, eps=0.0625, initial_scale=0.5), {}),
    'sgd': (dict(learning_rate=0.125, momentum=0.875), dict(nesterov=True)),
    'sm3': (dict(learning_rate=0.125, momentum=0.875), {}),
    'yogi': (dict(learning_rate=0.125, b1=0.875, b2=0.75, eps=0.0625), {}),
    'clip': (dict(max_delta=0.5), {}), 'clip_by_global_norm': (dict(max_norm=0.5), {}), 'adaptive_grad_clip': (dict(clipping=0.5, eps=0.25), {}),
    'add_decayed_weights': (dict(weight_decay=0.5), {}), 'add_noise': (dict(eta=0.5, gamma=0.375), dict(seed=3)),
    'ema': (dict(decay=0.875), dict(debias=True)), 'scale': (dict(step_size=0.5), {}),
    'scale_by_adam': (dict(b1=0.875, b2=0.75, eps=0.0625, eps_root=0.03125), {}), 'scale_by_belief': (dict(b1=0.875, b2=0.75, eps=0.0625, eps_root=0.03125), {}),
    'scale_by_radam': (dict(b1=0.875, b2=0.75, eps=0.0625, threshold=2.0), {}), 'scale_by_rms': (dict(decay=0.875, eps=0.0625, initial_scale=0.5), {}),
    'scale_by_rss': (dict(initial_accumulator_value=0.25, eps=0.0625), {}), 'scale_by_sm3': (dict(b1=0.875, b2=0.75, eps=0.0625), {}),
    'scale_by_stddev': (dict(decay=0.875, eps=0.0625, initial_scale=0.5), {}), 'scale_by_trust_ratio': (dict(min_norm=0.25), {}),
    'scale_by_yogi': (dict(b1=0.875, b2=0.75, eps=0.0625, initial_accumulator_value=0.5), {}), 'trace': (dict(decay=0.875), dict(nesterov=False)),
}


def public(ctx, name, jit):
  """A public factory: every numeric hyperparameter a schedule, then a number changed in the state."""
  nums, other = FACTORIES[name]
  v = ctx.val(24)
  p = ctx.tree('p', TREE)
  for mode in ('schedules', 'numbers', 'first scheduled'):
    kw, sch = {}, {}
    for i, (k, x) in enumerate(nums.items()):
      if mode == 'schedules' or (mode == 'first scheduled' and i == 0):
        sch[k] = kw[k] = (lambda c0=x, i=i: ctx.prim(lambda c: Arr(V.oarr(T.div(T.const(c0 * 8), T.add(T.const(8.0 + i), V.as_arr(c).item()))), 'float32', True, True), 's%d' % i))()
      else: kw[k] = x
    lab = '%s, %s%s' % (name, mode, ' compiled' if jit else '')
    tx = ctx.guard(lab, ctx.I.call, ctx.call('inject_hyperparams', ctx.f(name)), [], {**kw, **other})
    if tx is None: continue
    s = ctx.guard(lab + ': init', ctx.init, tx, p)
    if s is None: continue
    for k in range(1, 3):
      g = ctx.tree('g%d' % k, TREE)
      if k == 2: s = with_(s, hyperparams={x: ctx.arr('o_' + x, (), 'unit') if V.is_float(V.as_arr(y).dtype) else y for x, y in V.rget(s, 'hyperparams').items()})
      ctx.I.jit = jit
      try: r = ctx.guard('%s: update %d' % (lab, k), ctx.update, tx, g, s, p)
      finally: ctx.I.jit = False
      if r is None: break
      hp = V.rget(r[1], 'hyperparams')
      for x in nums:
        if x not in hp:
          ctx.true('public', '%s: %s is injected' % (lab, x), False, 'hyperparams has only %s' % sorted(hp))
          continue
        e = value_at(ctx, sch[x], V.const_arr(k, 'int32')) if x in sch else V.as_arr(V.rget(s, 'hyperparams')[x])
        ctx.eq('public', '%s, update %d: %s' % (lab, k, x), hp[x], Arr(e.a, V.as_arr(hp[x]).dtype), v)
      direct = ctx.call(name, **{**other, **dict(hp)})
      ctx.I.jit = jit
      try: e = ctx.update(direct, g, V.rget(s, 'inner_state'), p)
      finally: ctx.I.jit = False
      ctx.eq('public', '%s, update %d: updates' % (lab, k), r[0], e[0], v, dtypes=True)
      ctx.eq('public', '%s, update %d: inner state' % (lab, k), V.rget(r[1], 'inner_state'), e[1], v)
      s = r[1]


def wrappers(ctx):
  """Factories taking callables and transformations (static arguments)."""
  p = ctx.tree('p', TREE)
  f = sched(ctx, 'step')
  v = ctx.val(24)
  for nm, st, kw in (('scale_by_schedule', 'step_size_fn', lambda: dict(step_size_fn=f)),
                     ('maybe_update', ('should_update_fn',), lambda: dict(inner=ctx.call('adam', 0.5), should_update_fn=ctx.prim(lambda s: Arr(V.oarr(T.lt(V.as_arr(s).item(), T.const(2))), 'bool', False, True), 'should'))),
                     ('masked', ['mask'], lambda: dict(inner=ctx.call('trace', 0.5), mask=ctx.prim(lambda t: V.tree_map(lambda l: True, t), 'mask'))),
                     ('apply_if_finite', (), lambda: dict(inner=ctx.call('adam', 0.5), max_consecutive_errors=2)),
                     ('flatten', (), lambda: dict(inner=ctx.call('adam', 0.5)))):
    a = kw()
    tx = ctx.I.call(ctx.call('inject_hyperparams', ctx.f(nm), st), [], a)
    d = ctx.call(nm, **a)
    s, t = ctx.init(tx, p), ctx.init(d, p)
    ctx.eq('static', nm + ': initial state', V.rget(s, 'inner_state'), t, v)
    for k in range(2):
      g = ctx.tree('g%d' % k, TREE)
      u, s = ctx.update(tx, g, s, p)
      e, t = ctx.update(d, g, t, p)
      ctx.eq('static', '%s, update %d: updates' % (nm, k + 1), u, e, v)
      ctx.eq('static', '%s, update %d: state' % (nm, k + 1), V.rget(s, 'inner_state'), t, v)


HALF = {'a': L(2, dtype='bfloat16'), 'b': L(2)}


def check(ctx):
  ctx.section('nothing given', no_arguments)
  for kind in ('float', 'int', 'schedule', 'array', 'numpy array', 'int array'):
    for name, tree in (('no leaves', {}), ('no leaves, nested', {'a': (), 'b': [None]})):
      ctx.section('plain %s %s' % (kind, name), styles, 'plain', kind, 'keyword', tree, False, True)
  for fname in FACTS:
    for kind in VALUES:
      for style in ('positional', 'keyword', 'mixed', 'defaults'):
        if not ctx.thorough and fname in ('maker', 'method', 'partial') and (style in ('mixed', 'defaults') or kind not in ('schedule', 'float', 'int')): continue
        ctx.section('%s %s %s' % (fname, kind, style), styles, fname, kind, style, TREE, False, True)
      if fname == 'plain' or ctx.thorough:
        ctx.section('%s %s half' % (fname, kind), styles, fname, kind, 'keyword', HALF, False, True)
        ctx.section('%s %s mixed precision' % (fname, kind), styles, fname, kind, 'keyword', MIXED, False, True)
        ctx.section('%s %s compiled' % (fname, kind), styles, fname, kind, 'keyword', TREE, True, True)
        ctx.section('%s %s without params' % (fname, kind), styles, fname, kind, 'keyword', TREE, False, False)
        ctx.section('%s %s bare' % (fname, kind), styles, fname, kind, 'keyword', L(3), False, True)
  for fname in ('plain', 'swapped'):
    for jit in (False, True): ctx.section('mixture %s %s' % (fname, jit), mixture, fname, jit)
  ctx.section('rejects', rejects)
  ctx.section('wrappers', wrappers)
  for n in FACTORIES:
    for jit in (False, True): ctx.section('public %s %s' % (n, jit), public, n, jit)
